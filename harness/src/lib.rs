pub mod checks;
pub mod gen;
pub mod lit;
pub mod mon;
pub mod mutate;
pub mod rng;
pub mod run;
pub mod term;
pub mod tok;
