//! Empty stand-in: an optional dependency that is resolved, but never enabled.
