pub use dochy; pub use dochy_diff;
