//! Empty stand-in: only dev-dependencies of cairo-m crates name this crate, and those are never built here.
