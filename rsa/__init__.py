"""rsa: a static analyser specific to the rascal code base."""
