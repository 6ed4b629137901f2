"""Static analyses of tensap (standard library only; never imports tensap)."""
