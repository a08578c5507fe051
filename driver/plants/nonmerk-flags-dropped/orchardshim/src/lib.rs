//! Stand-in for the parts of the `orchard` crate grovedb-commitment-tree names (the crate is not
//! available offline). Only what a server needs does anything: Merkle hashes are BLAKE3 with
//! the top bit cleared in place of Sinsemilla; the empty root is the real constant.
pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;
macro_rules! opaque {
    ($($n:ident),*) => { $(#[derive(Clone, Debug)] pub struct $n;)* };
}
pub use tree::Anchor;
opaque!(Action, Address, Bundle, Note, Proof);
pub mod builder {
    opaque!(Builder, BundleType);
}
pub mod bundle {
    opaque!(BatchValidator, Authorized, Flags);
}
pub mod circuit {
    opaque!(ProvingKey, VerifyingKey);
}
pub mod keys {
    opaque!(FullViewingKey, IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey, Scope, SpendAuthorizingKey, SpendValidatingKey, SpendingKey);
}
pub mod primitives {
    pub mod redpallas {}
}
pub mod value {
    opaque!(NoteValue, ValueCommitment);
}
pub mod note_encryption {
    opaque!(CompactAction, OrchardDomain);
}
pub mod zcash_note_encryption {
    opaque!(EphemeralKeyBytes);
    pub trait Domain {}
    pub trait ShieldedOutput {}
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
    pub mod note_bytes {
        pub trait NoteBytes: AsRef<[u8]> + Clone + Sized {
            fn from_slice(b: &[u8]) -> Option<Self>;
        }
        #[derive(Clone, Debug)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);
        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(b: &[u8]) -> Option<Self> {
                Some(NoteBytesData(b.try_into().ok()?))
            }
        }
    }
}
pub mod memo {
    use crate::zcash_note_encryption::note_bytes::*;
    pub const COMPACT_NOTE_SIZE: usize = 52;
    pub trait MemoSize {
        type NoteCiphertextBytes: NoteBytes;
    }
    #[derive(Clone, Debug)]
    pub struct DashMemo;
    impl MemoSize for DashMemo {
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}
pub mod note {
    use crate::memo::MemoSize;
    opaque!(RandomSeed, ExtractedNoteCommitment, Nullifier, Rho);
    #[derive(Clone, Debug)]
    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }
    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(epk_bytes: [u8; 32], enc_ciphertext: M::NoteCiphertextBytes, out_ciphertext: [u8; 80]) -> Self {
            TransmittedNoteCiphertext { epk_bytes, enc_ciphertext, out_ciphertext }
        }
    }
}
pub mod tree {
    use incrementalmerkletree::{Hashable, Level};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct MerkleHashOrchard([u8; 32]);
    #[derive(Clone, Debug)]
    pub struct MerklePath;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Anchor([u8; 32]);
    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Anchor(h.0)
        }
    }
    impl Anchor {
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
    }
    impl MerkleHashOrchard {
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0
        }
        /// `Option` stands for the crate's `CtOption`
        pub fn from_bytes(b: &[u8; 32]) -> Option<Self> {
            (b[31] < 0x40).then_some(MerkleHashOrchard(*b))
        }
    }
    const EMPTY: [u8; 32] = [
        0xae, 0x29, 0x35, 0xf1, 0xdf, 0xd8, 0xa2, 0x4a, 0xed, 0x7c, 0x70, 0xdf, 0x7d, 0xe3, 0xa6, 0x68, 0xeb, 0x7a, 0x49, 0xb1, 0x31,
        0x98, 0x80, 0xdd, 0xe2, 0xbb, 0xd9, 0x03, 0x1a, 0xe5, 0xd8, 0x2f,
    ];
    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            MerkleHashOrchard([2; 32])
        }
        fn combine(_: Level, a: &Self, b: &Self) -> Self {
            let mut h = *blake3::hash(&[a.0, b.0].concat()).as_bytes();
            h[31] &= 0x3f;
            MerkleHashOrchard(h)
        }
        fn empty_root(level: Level) -> Self {
            if u8::from(level) == 32 {
                return MerkleHashOrchard(EMPTY);
            }
            let mut b = [3; 32];
            b[0] = u8::from(level);
            MerkleHashOrchard(b)
        }
    }
}
