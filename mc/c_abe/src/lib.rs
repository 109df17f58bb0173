//! Reference models for the text language, written from its documentation and independent of the code under test.
pub mod text;
/// Numbers of repetitions around the sizes where a counter, a buffer or a fast path could change
pub const WIDE: [usize; 34] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
pub const VERY_WIDE: [usize; 6] = [511, 1000, 1024, 4096, 65535, 65537];
pub mod interp;
pub mod stdfn;
