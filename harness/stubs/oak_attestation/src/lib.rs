//! Facade of the simulated Oak.

