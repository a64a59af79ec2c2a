pub mod dd;
pub mod poly;
pub mod run;
