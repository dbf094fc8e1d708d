"""Stand-in for the plotting library: interpreted by the analysis, records what is drawn."""
