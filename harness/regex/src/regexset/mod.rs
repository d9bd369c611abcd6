pub(crate) mod bytes;
pub(crate) mod string;
