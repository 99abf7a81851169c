pub mod multiple;
pub mod one;
