// Empty stand-in: pinocchio is not installed and nothing built here uses this header.
