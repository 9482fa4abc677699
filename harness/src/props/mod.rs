pub mod beside;
pub mod debug;
pub mod equal;
pub mod extreme;
pub mod files;
pub mod history;
pub mod input;
pub mod logging;
pub mod misuse;
pub mod multi;
pub mod platform;
pub mod reading;
pub mod routing;
pub mod serial;
pub mod session;
pub mod space;
pub mod sparse;
pub mod speed;
pub mod threads;
