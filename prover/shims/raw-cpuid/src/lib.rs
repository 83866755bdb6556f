//! Stand-in: declared as a dependency, not used by the code under test.
