"""Modules a client asks the running system to load; nothing imports them before."""
