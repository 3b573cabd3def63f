"""A package of which only the modules matter."""
