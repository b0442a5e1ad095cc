"""Static analysis framework for miute/svgpy (standard library only)."""
