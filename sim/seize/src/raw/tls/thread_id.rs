// Copyright 2017 Amanieu d'Antras
//
// Licensed under the Apache License, Version 2.0, <LICENSE-APACHE or
// http://apache.org/licenses/LICENSE-2.0> or the MIT license <LICENSE-MIT or
// http://opensource.org/licenses/MIT>, at your option. This file may not be
// copied, modified, or distributed except according to those terms.

use crate::sim;

/// A unique identifier for a slot in a triangular vector, such as
/// `ThreadLocal`.
///
/// A thread ID may be reused after the corresponding thread exits.
#[derive(Clone, Copy)]
pub struct Thread {
    /// A unique identifier for the thread.
    pub id: usize,

    /// The index of the entry in the bucket.
    pub entry: usize,

    /// The index of the bucket.
    pub bucket: usize,
}

/// The number of entries that are skipped from the start of a vector.
///
/// Index calculations assume that buckets are of sizes `[2^0, 2^1, ..., 2^63]`.
/// To skip shorter buckets and avoid unnecessary allocations, the zeroeth entry
/// index is remapped to a larger index (`2^0 + ... + 2^4 = 31`).
const ZERO_ENTRY: usize = 31;

/// The number of buckets that are skipped from the start of a vector.
///
/// This is the index that the zeroeth bucket index is remapped to (currently
/// `5`).
const ZERO_BUCKET: usize = (usize::BITS - ZERO_ENTRY.leading_zeros()) as usize;

/// The number of buckets in a vector.
pub const BUCKETS: usize = (usize::BITS as usize) - ZERO_BUCKET;

/// The maximum index of an element in the vector.
///
/// Note that capacity of the vector is:
/// `2^ZERO_BUCKET + ... + 2^63 = usize::MAX - ZERO_INDEX`.
const MAX_INDEX: usize = usize::MAX - ZERO_ENTRY - 1;

impl Thread {
    /// Returns a `ThreadId` identifier from a generic unique thread ID.
    ///
    /// The ID provided must not exceed `MAX_INDEX`.
    #[inline]
    pub fn new(id: usize) -> Thread {
        if id > MAX_INDEX {
            panic!("exceeded maximum thread count")
        }

        // Offset the ID based on the number of entries we skip at the start of the
        // buckets array.
        let index = id + ZERO_ENTRY;

        // Calculate the bucket index based on ⌊log2(index)⌋.
        let bucket = BUCKETS - ((index + 1).leading_zeros() as usize) - 1;

        // Offset the absolute index by the capacity of the preceding buckets.
        let entry = index - (Thread::bucket_capacity(bucket) - 1);

        Thread { id, bucket, entry }
    }

    /// Returns the capacity of the bucket at the given index.
    #[inline]
    pub fn bucket_capacity(bucket: usize) -> usize {
        1 << (bucket + ZERO_BUCKET)
    }

    /// Get the current thread.
    ///
    /// PATCHED: a simulated thread's id is its fiber's id.
    #[inline]
    pub fn current() -> Thread {
        Thread::new(sim::current_id())
    }

    /// Create a new thread.
    ///
    /// PATCHED: ids come from a per-run allocator.
    pub fn create() -> Thread {
        Thread::new(sim::create_id())
    }

    /// Free the given thread.
    ///
    /// # Safety
    ///
    /// This function must only be called once on a given thread.
    pub unsafe fn free(id: usize) {
        sim::free_id(id)
    }
}
