//! Written by gen.py: every tuple of distinct types over K0..K3, every pair over K0..K9, and longer ones.
use crate::arch::*;
use crate::comps::{tup, TupOps};

pub fn all() -> Vec<TupOps> {
    vec![
        tup::<K0>(),
        tup::<K1>(),
        tup::<K2>(),
        tup::<K3>(),
        tup::<(K0, K1)>(),
        tup::<(K0, K2)>(),
        tup::<(K0, K3)>(),
        tup::<(K1, K0)>(),
        tup::<(K1, K2)>(),
        tup::<(K1, K3)>(),
        tup::<(K2, K0)>(),
        tup::<(K2, K1)>(),
        tup::<(K2, K3)>(),
        tup::<(K3, K0)>(),
        tup::<(K3, K1)>(),
        tup::<(K3, K2)>(),
        tup::<(K0, K1, K2)>(),
        tup::<(K0, K1, K3)>(),
        tup::<(K0, K2, K1)>(),
        tup::<(K0, K2, K3)>(),
        tup::<(K0, K3, K1)>(),
        tup::<(K0, K3, K2)>(),
        tup::<(K1, K0, K2)>(),
        tup::<(K1, K0, K3)>(),
        tup::<(K1, K2, K0)>(),
        tup::<(K1, K2, K3)>(),
        tup::<(K1, K3, K0)>(),
        tup::<(K1, K3, K2)>(),
        tup::<(K2, K0, K1)>(),
        tup::<(K2, K0, K3)>(),
        tup::<(K2, K1, K0)>(),
        tup::<(K2, K1, K3)>(),
        tup::<(K2, K3, K0)>(),
        tup::<(K2, K3, K1)>(),
        tup::<(K3, K0, K1)>(),
        tup::<(K3, K0, K2)>(),
        tup::<(K3, K1, K0)>(),
        tup::<(K3, K1, K2)>(),
        tup::<(K3, K2, K0)>(),
        tup::<(K3, K2, K1)>(),
        tup::<(K0, K1, K2, K3)>(),
        tup::<(K0, K1, K3, K2)>(),
        tup::<(K0, K2, K1, K3)>(),
        tup::<(K0, K2, K3, K1)>(),
        tup::<(K0, K3, K1, K2)>(),
        tup::<(K0, K3, K2, K1)>(),
        tup::<(K1, K0, K2, K3)>(),
        tup::<(K1, K0, K3, K2)>(),
        tup::<(K1, K2, K0, K3)>(),
        tup::<(K1, K2, K3, K0)>(),
        tup::<(K1, K3, K0, K2)>(),
        tup::<(K1, K3, K2, K0)>(),
        tup::<(K2, K0, K1, K3)>(),
        tup::<(K2, K0, K3, K1)>(),
        tup::<(K2, K1, K0, K3)>(),
        tup::<(K2, K1, K3, K0)>(),
        tup::<(K2, K3, K0, K1)>(),
        tup::<(K2, K3, K1, K0)>(),
        tup::<(K3, K0, K1, K2)>(),
        tup::<(K3, K0, K2, K1)>(),
        tup::<(K3, K1, K0, K2)>(),
        tup::<(K3, K1, K2, K0)>(),
        tup::<(K3, K2, K0, K1)>(),
        tup::<(K3, K2, K1, K0)>(),
        tup::<(K0, K4)>(),
        tup::<(K0, K5)>(),
        tup::<(K0, K6)>(),
        tup::<(K0, K7)>(),
        tup::<(K0, K8)>(),
        tup::<(K0, K9)>(),
        tup::<(K1, K4)>(),
        tup::<(K1, K5)>(),
        tup::<(K1, K6)>(),
        tup::<(K1, K7)>(),
        tup::<(K1, K8)>(),
        tup::<(K1, K9)>(),
        tup::<(K2, K4)>(),
        tup::<(K2, K5)>(),
        tup::<(K2, K6)>(),
        tup::<(K2, K7)>(),
        tup::<(K2, K8)>(),
        tup::<(K2, K9)>(),
        tup::<(K3, K4)>(),
        tup::<(K3, K5)>(),
        tup::<(K3, K6)>(),
        tup::<(K3, K7)>(),
        tup::<(K3, K8)>(),
        tup::<(K3, K9)>(),
        tup::<(K4, K0)>(),
        tup::<(K4, K1)>(),
        tup::<(K4, K2)>(),
        tup::<(K4, K3)>(),
        tup::<(K4, K5)>(),
        tup::<(K4, K6)>(),
        tup::<(K4, K7)>(),
        tup::<(K4, K8)>(),
        tup::<(K4, K9)>(),
        tup::<(K5, K0)>(),
        tup::<(K5, K1)>(),
        tup::<(K5, K2)>(),
        tup::<(K5, K3)>(),
        tup::<(K5, K4)>(),
        tup::<(K5, K6)>(),
        tup::<(K5, K7)>(),
        tup::<(K5, K8)>(),
        tup::<(K5, K9)>(),
        tup::<(K6, K0)>(),
        tup::<(K6, K1)>(),
        tup::<(K6, K2)>(),
        tup::<(K6, K3)>(),
        tup::<(K6, K4)>(),
        tup::<(K6, K5)>(),
        tup::<(K6, K7)>(),
        tup::<(K6, K8)>(),
        tup::<(K6, K9)>(),
        tup::<(K7, K0)>(),
        tup::<(K7, K1)>(),
        tup::<(K7, K2)>(),
        tup::<(K7, K3)>(),
        tup::<(K7, K4)>(),
        tup::<(K7, K5)>(),
        tup::<(K7, K6)>(),
        tup::<(K7, K8)>(),
        tup::<(K7, K9)>(),
        tup::<(K8, K0)>(),
        tup::<(K8, K1)>(),
        tup::<(K8, K2)>(),
        tup::<(K8, K3)>(),
        tup::<(K8, K4)>(),
        tup::<(K8, K5)>(),
        tup::<(K8, K6)>(),
        tup::<(K8, K7)>(),
        tup::<(K8, K9)>(),
        tup::<(K9, K0)>(),
        tup::<(K9, K1)>(),
        tup::<(K9, K2)>(),
        tup::<(K9, K3)>(),
        tup::<(K9, K4)>(),
        tup::<(K9, K5)>(),
        tup::<(K9, K6)>(),
        tup::<(K9, K7)>(),
        tup::<(K9, K8)>(),
        tup::<(K0, K1, K2, K3, K4, K5, K6, K7, K8, K9)>(),
        tup::<(K5, K6, K7, K8, K9)>(),
        tup::<(K9, K8, K7, K6, K5, K4, K3, K2, K1, K0)>(),
        tup::<(K9, K8, K7, K6, K5)>(),
        tup::<(K5, K6, K7, K8, K9, K0, K1, K2, K3, K4)>(),
        tup::<(K5, K6, K7, K8, K9)>(),
        tup::<(K0, K2, K4, K6, K8, K1, K3, K5, K7, K9)>(),
        tup::<(K6, K8, K5, K7, K9)>(),
        tup::<(K1, K3, K5, K7, K9, K0, K2, K4, K6, K8)>(),
        tup::<(K5, K7, K9, K6, K8)>(),
    ]
}
