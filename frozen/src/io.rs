pub mod as_bytes_mut;
pub mod bit_read;
pub mod bit_write;
