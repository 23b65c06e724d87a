"""tksim: deterministic simulation with fault injection for Tonnikala."""
