"""Stand-in for cartopy."""
