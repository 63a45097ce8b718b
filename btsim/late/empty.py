"""No node classes here."""
