"""Stand-in for the mcap package."""
