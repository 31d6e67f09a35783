//! Pulls in hyperdrive (from /repo) and its dependencies; the witness programs are compiled against these.
extern crate hyperdrive;
