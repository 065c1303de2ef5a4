"""symx: a small symbolic executor for Hyperstatic's Python and C numeric code."""
