//! Written by gen.py: tuples of one to twelve types in many orders.
use super::*;

pub fn all() -> Vec<Case> {
    vec![
        one::<C0>(),
        one::<C1>(),
        one::<C2>(),
        one::<C3>(),
        one::<C4>(),
        one::<C5>(),
        one::<C6>(),
        one::<C7>(),
        one::<C8>(),
        one::<C9>(),
        one::<C10>(),
        one::<C11>(),
        many::<(C0, C1), C0, C1>(),
        many::<(C1, C0), C1, C0>(),
        many::<(C2, C3), C2, C3>(),
        many::<(C3, C2), C3, C2>(),
        many::<(C4, C5), C4, C5>(),
        many::<(C5, C4), C5, C4>(),
        many::<(C6, C7), C6, C7>(),
        many::<(C7, C6), C7, C6>(),
        many::<(C8, C9), C8, C9>(),
        many::<(C9, C8), C9, C8>(),
        many::<(C10, C11), C10, C11>(),
        many::<(C11, C10), C11, C10>(),
        many::<(C0, C11), C0, C11>(),
        many::<(C11, C3), C11, C3>(),
        many::<(C0, C1, C2), (C0, C1), C2>(),
        many::<(C0, C2, C1), (C0, C2), C1>(),
        many::<(C1, C0, C2), C1, (C0, C2)>(),
        many::<(C1, C2, C0), C1, (C2, C0)>(),
        many::<(C2, C0, C1), (C2, C0), C1>(),
        many::<(C2, C1, C0), (C2, C1), C0>(),
        many::<(C0, C1, C2, C3), (C0, C1), (C2, C3)>(),
        many::<(C0, C1, C3, C2), (C0, C1), (C3, C2)>(),
        many::<(C0, C2, C1, C3), (C0, C2), (C1, C3)>(),
        many::<(C0, C2, C3, C1), (C0, C2), (C3, C1)>(),
        many::<(C0, C3, C1, C2), (C0, C3), (C1, C2)>(),
        many::<(C0, C3, C2, C1), (C0, C3), (C2, C1)>(),
        many::<(C1, C0, C2, C3), (C1, C0, C2), C3>(),
        many::<(C1, C0, C3, C2), (C1, C0, C3), C2>(),
        many::<(C1, C2, C0, C3), (C1, C2, C0), C3>(),
        many::<(C1, C2, C3, C0), (C1, C2, C3), C0>(),
        many::<(C1, C3, C0, C2), (C1, C3, C0), C2>(),
        many::<(C1, C3, C2, C0), (C1, C3, C2), C0>(),
        many::<(C2, C0, C1, C3), C2, (C0, C1, C3)>(),
        many::<(C2, C0, C3, C1), C2, (C0, C3, C1)>(),
        many::<(C2, C1, C0, C3), C2, (C1, C0, C3)>(),
        many::<(C2, C1, C3, C0), C2, (C1, C3, C0)>(),
        many::<(C2, C3, C0, C1), C2, (C3, C0, C1)>(),
        many::<(C2, C3, C1, C0), C2, (C3, C1, C0)>(),
        many::<(C3, C0, C1, C2), (C3, C0), (C1, C2)>(),
        many::<(C3, C0, C2, C1), (C3, C0), (C2, C1)>(),
        many::<(C3, C1, C0, C2), (C3, C1), (C0, C2)>(),
        many::<(C3, C1, C2, C0), (C3, C1), (C2, C0)>(),
        many::<(C3, C2, C0, C1), (C3, C2), (C0, C1)>(),
        many::<(C3, C2, C1, C0), (C3, C2), (C1, C0)>(),
        many::<(C0, C1, C2, C3, C4), (C0, C1), (C2, C3, C4)>(),
        many::<(C11, C10, C9, C8, C7), C11, (C10, C9, C8, C7)>(),
        many::<(C1, C2, C3, C4, C0), (C1, C2, C3), (C4, C0)>(),
        many::<(C9, C10, C11, C7, C8), (C9, C10, C11), (C7, C8)>(),
        many::<(C4, C1, C2, C3, C0), (C4, C1), (C2, C3, C0)>(),
        many::<(C7, C9, C11, C8, C10), C7, (C9, C11, C8, C10)>(),
        many::<(C8, C7, C9, C10, C11), (C8, C7), (C9, C10, C11)>(),
        many::<(C0, C1, C2, C3, C4, C5), (C0, C1, C2), (C3, C4, C5)>(),
        many::<(C11, C10, C9, C8, C7, C6), (C11, C10, C9, C8), (C7, C6)>(),
        many::<(C1, C2, C3, C4, C5, C0), (C1, C2, C3, C4), (C5, C0)>(),
        many::<(C9, C10, C11, C6, C7, C8), (C9, C10), (C11, C6, C7, C8)>(),
        many::<(C5, C1, C2, C3, C4, C0), (C5, C1, C2), (C3, C4, C0)>(),
        many::<(C6, C8, C10, C7, C9, C11), (C6, C8, C10, C7), (C9, C11)>(),
        many::<(C7, C6, C8, C9, C10, C11), (C7, C6, C8, C9, C10), C11>(),
        many::<(C0, C1, C2, C3, C4, C5, C6), (C0, C1, C2), (C3, C4, C5, C6)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5), (C11, C10), (C9, C8, C7, C6, C5)>(),
        many::<(C1, C2, C3, C4, C5, C6, C0), (C1, C2, C3, C4), (C5, C6, C0)>(),
        many::<(C8, C9, C10, C11, C5, C6, C7), (C8, C9, C10, C11, C5), (C6, C7)>(),
        many::<(C6, C1, C2, C3, C4, C5, C0), (C6, C1, C2), (C3, C4, C5, C0)>(),
        many::<(C5, C7, C9, C11, C6, C8, C10), (C5, C7), (C9, C11, C6, C8, C10)>(),
        many::<(C6, C5, C7, C8, C9, C10, C11), (C6, C5, C7), (C8, C9, C10, C11)>(),
        many::<(C0, C1, C2, C3, C4, C5, C6, C7), (C0, C1, C2), (C3, C4, C5, C6, C7)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5, C4), (C11, C10, C9, C8, C7, C6, C5), C4>(),
        many::<(C1, C2, C3, C4, C5, C6, C7, C0), (C1, C2, C3, C4), (C5, C6, C7, C0)>(),
        many::<(C8, C9, C10, C11, C4, C5, C6, C7), (C8, C9, C10, C11), (C4, C5, C6, C7)>(),
        many::<(C7, C1, C2, C3, C4, C5, C6, C0), (C7, C1, C2), (C3, C4, C5, C6, C0)>(),
        many::<(C4, C6, C8, C10, C5, C7, C9, C11), (C4, C6, C8, C10, C5, C7, C9), C11>(),
        many::<(C5, C4, C6, C7, C8, C9, C10, C11), C5, (C4, C6, C7, C8, C9, C10, C11)>(),
        many::<(C0, C1, C2, C3, C4, C5, C6, C7, C8), (C0, C1, C2, C3), (C4, C5, C6, C7, C8)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5, C4, C3), (C11, C10, C9, C8, C7, C6, C5), (C4, C3)>(),
        many::<(C1, C2, C3, C4, C5, C6, C7, C8, C0), (C1, C2, C3, C4, C5), (C6, C7, C8, C0)>(),
        many::<(C7, C8, C9, C10, C11, C3, C4, C5, C6), (C7, C8, C9), (C10, C11, C3, C4, C5, C6)>(),
        many::<(C8, C1, C2, C3, C4, C5, C6, C7, C0), (C8, C1, C2, C3), (C4, C5, C6, C7, C0)>(),
        many::<(C3, C5, C7, C9, C11, C4, C6, C8, C10), (C3, C5, C7, C9, C11, C4, C6), (C8, C10)>(),
        many::<(C4, C3, C5, C6, C7, C8, C9, C10, C11), (C4, C3, C5, C6, C7, C8, C9, C10), C11>(),
        many::<(C0, C1, C2, C3, C4, C5, C6, C7, C8, C9), (C0, C1, C2, C3), (C4, C5, C6, C7, C8, C9)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5, C4, C3, C2), (C11, C10, C9, C8, C7, C6), (C5, C4, C3, C2)>(),
        many::<(C1, C2, C3, C4, C5, C6, C7, C8, C9, C0), (C1, C2, C3, C4, C5), (C6, C7, C8, C9, C0)>(),
        many::<(C7, C8, C9, C10, C11, C2, C3, C4, C5, C6), (C7, C8), (C9, C10, C11, C2, C3, C4, C5, C6)>(),
        many::<(C9, C1, C2, C3, C4, C5, C6, C7, C8, C0), (C9, C1, C2, C3), (C4, C5, C6, C7, C8, C0)>(),
        many::<(C2, C4, C6, C8, C10, C3, C5, C7, C9, C11), (C2, C4, C6, C8, C10, C3), (C5, C7, C9, C11)>(),
        many::<(C3, C2, C4, C5, C6, C7, C8, C9, C10, C11), (C3, C2, C4, C5, C6, C7, C8), (C9, C10, C11)>(),
        many::<(C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10), (C0, C1, C2, C3), (C4, C5, C6, C7, C8, C9, C10)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5, C4, C3, C2, C1), (C11, C10, C9, C8, C7), (C6, C5, C4, C3, C2, C1)>(),
        many::<(C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C0), (C1, C2, C3, C4, C5), (C6, C7, C8, C9, C10, C0)>(),
        many::<(C6, C7, C8, C9, C10, C11, C1, C2, C3, C4, C5), (C6, C7, C8, C9, C10, C11, C1, C2, C3, C4), C5>(),
        many::<(C10, C1, C2, C3, C4, C5, C6, C7, C8, C9, C0), (C10, C1, C2, C3), (C4, C5, C6, C7, C8, C9, C0)>(),
        many::<(C1, C3, C5, C7, C9, C11, C2, C4, C6, C8, C10), (C1, C3, C5, C7, C9), (C11, C2, C4, C6, C8, C10)>(),
        many::<(C2, C1, C3, C4, C5, C6, C7, C8, C9, C10, C11), (C2, C1, C3, C4, C5, C6), (C7, C8, C9, C10, C11)>(),
        many::<(C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11), (C0, C1, C2, C3, C4), (C5, C6, C7, C8, C9, C10, C11)>(),
        many::<(C11, C10, C9, C8, C7, C6, C5, C4, C3, C2, C1, C0), (C11, C10, C9, C8, C7), (C6, C5, C4, C3, C2, C1, C0)>(),
        many::<(C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11, C0), (C1, C2, C3, C4, C5, C6), (C7, C8, C9, C10, C11, C0)>(),
        many::<(C6, C7, C8, C9, C10, C11, C0, C1, C2, C3, C4, C5), (C6, C7, C8, C9, C10, C11, C0, C1, C2, C3, C4), C5>(),
        many::<(C11, C1, C2, C3, C4, C5, C6, C7, C8, C9, C10, C0), (C11, C1, C2, C3, C4), (C5, C6, C7, C8, C9, C10, C0)>(),
        many::<(C0, C2, C4, C6, C8, C10, C1, C3, C5, C7, C9, C11), (C0, C2, C4, C6, C8), (C10, C1, C3, C5, C7, C9, C11)>(),
        many::<(C1, C0, C2, C3, C4, C5, C6, C7, C8, C9, C10, C11), (C1, C0, C2, C3, C4, C5), (C6, C7, C8, C9, C10, C11)>(),
    ]
}
