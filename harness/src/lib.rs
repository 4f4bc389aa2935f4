pub mod cb;
pub mod choice;
pub mod cost;
pub mod cx;
pub mod data;
pub mod deep;
pub mod engines;
pub mod eq;
pub mod fixture;
pub mod macrogen;
pub mod mem;
pub mod model;
pub mod nav;
pub mod print;
pub mod probe;
pub mod runner;
pub mod serial;
pub mod trav;
pub mod world;
