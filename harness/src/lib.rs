pub mod entropy;
pub mod util;
pub mod refbg;
pub mod gen;
pub mod hashgame;
pub mod mon;
pub mod net;
pub mod tree;
pub mod work;
pub mod play;
pub mod rig;
pub mod inuse;
pub mod cli;
pub mod crowd;

pub use util::*;
