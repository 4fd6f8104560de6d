//! What the hooks in the code under test give access to. Where one does not
//! compile any more, the build leaves it out, and its feature with it; the
//! monitors then do without.
#![allow(unused)]
use binate::connection::StreamIdProvider;
use binate::{Code, Error};

/// A provider starting at the given number.
pub fn ids_from(first: i32) -> Option<StreamIdProvider> {
    #[cfg(feature = "h-start")]
    return Some(StreamIdProvider::verif_starting_at(first));
    #[cfg(not(feature = "h-start"))]
    None
}

/// An error of the protocol.
pub fn protocol(code: Code, cause: Option<String>) -> Option<Error> {
    #[cfg(feature = "h-error")]
    return Some(Error::verif_protocol(code, cause));
    #[cfg(not(feature = "h-error"))]
    None
}

#[cfg(feature = "h-machine")]
pub use self::machine::*;

#[cfg(feature = "h-machine")]
mod machine {
    use super::*;
    pub use binate::connection::verif::Machine;

    pub trait Knobs {
        /// Sets the fragment size; returns the one in effect.
        fn fragments(&mut self, size: Option<usize>) -> Option<usize>;
        /// Makes stream IDs continue from here; false if it cannot.
        fn continue_ids(&mut self, first: u32) -> bool;
        /// Marks a stream ID as in use; false if it cannot.
        fn take_id(&self, id: u32) -> bool;
        fn free_id(&self, id: u32);
    }

    impl Knobs for Machine {
        fn fragments(&mut self, size: Option<usize>) -> Option<usize> {
            #[cfg(feature = "h-chunk")]
            {
                self.set_chunk_payload(size);
                return size;
            }
            #[allow(unreachable_code)]
            None
        }
        fn continue_ids(&mut self, first: u32) -> bool {
            #[cfg(feature = "h-ids")]
            if let Some(p) = ids_from(first as i32) {
                self.set_stream_ids(p);
                return true;
            }
            false
        }
        fn take_id(&self, id: u32) -> bool {
            #[cfg(feature = "h-occupy")]
            {
                self.occupy(id);
                return true;
            }
            #[allow(unreachable_code)]
            false
        }
        fn free_id(&self, id: u32) {
            #[cfg(feature = "h-occupy")]
            self.release(id);
        }
    }
}
