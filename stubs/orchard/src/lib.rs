//! Stand-in for the subset of the `orchard` crate's API that
//! grovedb-commitment-tree names, so that the type checker can see the whole of
//! grovedb offline. The hash is blake3 with the top bits cleared, not Sinsemilla;
//! the analyses treat every item of this crate as opaque.
pub const NOTE_COMMITMENT_TREE_DEPTH: usize = 32;

pub struct CtOption<T>(Option<T>);
impl<T> CtOption<T> {
    pub fn unwrap(self) -> T {
        self.0.unwrap()
    }
    pub fn expect(self, m: &str) -> T {
        self.0.expect(m)
    }
}
impl<T> From<CtOption<T>> for Option<T> {
    fn from(v: CtOption<T>) -> Self {
        v.0
    }
}

pub mod tree {
    use super::CtOption;
    use incrementalmerkletree::{Hashable, Level};

    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct MerkleHashOrchard([u8; 32]);
    impl MerkleHashOrchard {
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
            if b[31] & 0xC0 == 0 {
                CtOption(Some(Self(*b)))
            } else {
                CtOption(None)
            }
        }
    }
    impl Hashable for MerkleHashOrchard {
        fn empty_leaf() -> Self {
            let mut v = [0u8; 32];
            v[0] = 2;
            Self(v)
        }
        fn combine(level: Level, l: &Self, r: &Self) -> Self {
            let mut h = blake3::Hasher::new();
            h.update(&[u8::from(level)]);
            h.update(&l.0);
            h.update(&r.0);
            let mut b = *h.finalize().as_bytes();
            b[31] &= 0x3f;
            Self(b)
        }
        fn empty_root(level: Level) -> Self {
            let mut v = Self::empty_leaf();
            for i in 0..u8::from(level) {
                v = Self::combine(Level::from(i), &v, &v);
            }
            v
        }
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Anchor([u8; 32]);
    impl Anchor {
        pub fn empty_tree() -> Self {
            Self(MerkleHashOrchard::empty_root(Level::from(32)).0)
        }
        pub fn to_bytes(self) -> [u8; 32] {
            self.0
        }
        pub fn from_bytes(b: [u8; 32]) -> CtOption<Self> {
            CtOption(Some(Self(b)))
        }
    }
    impl From<MerkleHashOrchard> for Anchor {
        fn from(h: MerkleHashOrchard) -> Self {
            Self(h.0)
        }
    }

    #[derive(Clone, Debug)]
    pub struct MerklePath(
        #[allow(dead_code)] incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>,
    );
    impl From<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>> for MerklePath {
        fn from(p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>) -> Self {
            Self(p)
        }
    }
}
pub use tree::Anchor;

macro_rules! opaque {
    ($($n:ident),*) => { $( #[derive(Clone, Debug)] pub struct $n; )* };
}
opaque!(Action, Address, Bundle, Note, Proof);

pub mod builder {
    opaque!(Builder, BundleType);
}
pub mod bundle {
    opaque!(BatchValidator, Authorized, Flags);
}
pub mod circuit {
    opaque!(ProvingKey, VerifyingKey);
}
pub mod keys {
    opaque!(
        FullViewingKey,
        IncomingViewingKey,
        OutgoingViewingKey,
        PreparedIncomingViewingKey,
        Scope,
        SpendAuthorizingKey,
        SpendValidatingKey,
        SpendingKey
    );
}
pub mod memo {
    use crate::zcash_note_encryption::note_bytes::{NoteBytes, NoteBytesData};
    pub const COMPACT_NOTE_SIZE: usize = 52;
    pub trait MemoSize: Clone + std::fmt::Debug {
        type NoteCiphertextBytes: NoteBytes;
    }
    #[derive(Clone, Debug)]
    pub struct DashMemo;
    impl MemoSize for DashMemo {
        type NoteCiphertextBytes = NoteBytesData<104>;
    }
}
pub mod note {
    use crate::memo::MemoSize;
    opaque!(RandomSeed, ExtractedNoteCommitment, Nullifier, Rho);
    #[derive(Clone, Debug)]
    pub struct TransmittedNoteCiphertext<M: MemoSize> {
        pub epk_bytes: [u8; 32],
        pub enc_ciphertext: M::NoteCiphertextBytes,
        pub out_ciphertext: [u8; 80],
    }
    impl<M: MemoSize> TransmittedNoteCiphertext<M> {
        pub fn from_parts(
            epk_bytes: [u8; 32],
            enc_ciphertext: M::NoteCiphertextBytes,
            out_ciphertext: [u8; 80],
        ) -> Self {
            Self {
                epk_bytes,
                enc_ciphertext,
                out_ciphertext,
            }
        }
    }
}
pub mod note_encryption {
    opaque!(CompactAction, OrchardDomain);
}
pub mod primitives {
    pub mod redpallas {}
}
pub mod value {
    opaque!(NoteValue, ValueCommitment);
}
pub mod zcash_note_encryption {
    pub mod note_bytes {
        pub trait NoteBytes: AsRef<[u8]> + AsMut<[u8]> + Clone + Copy + std::fmt::Debug {
            fn from_slice(bytes: &[u8]) -> Option<Self>
            where
                Self: Sized;
        }
        #[derive(Clone, Copy, Debug)]
        pub struct NoteBytesData<const N: usize>(pub [u8; N]);
        impl<const N: usize> AsRef<[u8]> for NoteBytesData<N> {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl<const N: usize> AsMut<[u8]> for NoteBytesData<N> {
            fn as_mut(&mut self) -> &mut [u8] {
                &mut self.0
            }
        }
        impl<const N: usize> NoteBytes for NoteBytesData<N> {
            fn from_slice(bytes: &[u8]) -> Option<Self> {
                bytes.try_into().ok().map(Self)
            }
        }
    }
    pub fn try_compact_note_decryption() {}
    pub fn try_note_decryption() {}
    pub trait Domain {}
    pub trait ShieldedOutput {}
    #[derive(Clone, Debug)]
    pub struct EphemeralKeyBytes(pub [u8; 32]);
}
