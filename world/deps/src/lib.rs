//! Pulls in every external crate the repository links against.
