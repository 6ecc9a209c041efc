// Generated by tools/gen_types.py: every scalar type the library supports.

#[macro_export]
macro_rules! signed_fixed {
    ($m:ident) => {
        $m!(fixed::FixedI8<fixed::types::extra::U0>, "FixedI8<U0>", 8, 0, true);
        $m!(fixed::FixedI8<fixed::types::extra::U1>, "FixedI8<U1>", 8, 1, true);
        $m!(fixed::FixedI8<fixed::types::extra::U2>, "FixedI8<U2>", 8, 2, true);
        $m!(fixed::FixedI8<fixed::types::extra::U3>, "FixedI8<U3>", 8, 3, true);
        $m!(fixed::FixedI8<fixed::types::extra::U4>, "FixedI8<U4>", 8, 4, true);
        $m!(fixed::FixedI8<fixed::types::extra::U5>, "FixedI8<U5>", 8, 5, true);
        $m!(fixed::FixedI16<fixed::types::extra::U0>, "FixedI16<U0>", 16, 0, true);
        $m!(fixed::FixedI16<fixed::types::extra::U1>, "FixedI16<U1>", 16, 1, true);
        $m!(fixed::FixedI16<fixed::types::extra::U2>, "FixedI16<U2>", 16, 2, true);
        $m!(fixed::FixedI16<fixed::types::extra::U3>, "FixedI16<U3>", 16, 3, true);
        $m!(fixed::FixedI16<fixed::types::extra::U4>, "FixedI16<U4>", 16, 4, true);
        $m!(fixed::FixedI16<fixed::types::extra::U5>, "FixedI16<U5>", 16, 5, true);
        $m!(fixed::FixedI16<fixed::types::extra::U6>, "FixedI16<U6>", 16, 6, true);
        $m!(fixed::FixedI16<fixed::types::extra::U7>, "FixedI16<U7>", 16, 7, true);
        $m!(fixed::FixedI16<fixed::types::extra::U8>, "FixedI16<U8>", 16, 8, true);
        $m!(fixed::FixedI16<fixed::types::extra::U9>, "FixedI16<U9>", 16, 9, true);
        $m!(fixed::FixedI16<fixed::types::extra::U10>, "FixedI16<U10>", 16, 10, true);
        $m!(fixed::FixedI16<fixed::types::extra::U11>, "FixedI16<U11>", 16, 11, true);
        $m!(fixed::FixedI16<fixed::types::extra::U12>, "FixedI16<U12>", 16, 12, true);
        $m!(fixed::FixedI16<fixed::types::extra::U13>, "FixedI16<U13>", 16, 13, true);
        $m!(fixed::FixedI32<fixed::types::extra::U0>, "FixedI32<U0>", 32, 0, true);
        $m!(fixed::FixedI32<fixed::types::extra::U1>, "FixedI32<U1>", 32, 1, true);
        $m!(fixed::FixedI32<fixed::types::extra::U2>, "FixedI32<U2>", 32, 2, true);
        $m!(fixed::FixedI32<fixed::types::extra::U3>, "FixedI32<U3>", 32, 3, true);
        $m!(fixed::FixedI32<fixed::types::extra::U4>, "FixedI32<U4>", 32, 4, true);
        $m!(fixed::FixedI32<fixed::types::extra::U5>, "FixedI32<U5>", 32, 5, true);
        $m!(fixed::FixedI32<fixed::types::extra::U6>, "FixedI32<U6>", 32, 6, true);
        $m!(fixed::FixedI32<fixed::types::extra::U7>, "FixedI32<U7>", 32, 7, true);
        $m!(fixed::FixedI32<fixed::types::extra::U8>, "FixedI32<U8>", 32, 8, true);
        $m!(fixed::FixedI32<fixed::types::extra::U9>, "FixedI32<U9>", 32, 9, true);
        $m!(fixed::FixedI32<fixed::types::extra::U10>, "FixedI32<U10>", 32, 10, true);
        $m!(fixed::FixedI32<fixed::types::extra::U11>, "FixedI32<U11>", 32, 11, true);
        $m!(fixed::FixedI32<fixed::types::extra::U12>, "FixedI32<U12>", 32, 12, true);
        $m!(fixed::FixedI32<fixed::types::extra::U13>, "FixedI32<U13>", 32, 13, true);
        $m!(fixed::FixedI32<fixed::types::extra::U14>, "FixedI32<U14>", 32, 14, true);
        $m!(fixed::FixedI32<fixed::types::extra::U15>, "FixedI32<U15>", 32, 15, true);
        $m!(fixed::FixedI32<fixed::types::extra::U16>, "FixedI32<U16>", 32, 16, true);
        $m!(fixed::FixedI32<fixed::types::extra::U17>, "FixedI32<U17>", 32, 17, true);
        $m!(fixed::FixedI32<fixed::types::extra::U18>, "FixedI32<U18>", 32, 18, true);
        $m!(fixed::FixedI32<fixed::types::extra::U19>, "FixedI32<U19>", 32, 19, true);
        $m!(fixed::FixedI32<fixed::types::extra::U20>, "FixedI32<U20>", 32, 20, true);
        $m!(fixed::FixedI32<fixed::types::extra::U21>, "FixedI32<U21>", 32, 21, true);
        $m!(fixed::FixedI32<fixed::types::extra::U22>, "FixedI32<U22>", 32, 22, true);
        $m!(fixed::FixedI32<fixed::types::extra::U23>, "FixedI32<U23>", 32, 23, true);
        $m!(fixed::FixedI32<fixed::types::extra::U24>, "FixedI32<U24>", 32, 24, true);
        $m!(fixed::FixedI32<fixed::types::extra::U25>, "FixedI32<U25>", 32, 25, true);
        $m!(fixed::FixedI32<fixed::types::extra::U26>, "FixedI32<U26>", 32, 26, true);
        $m!(fixed::FixedI32<fixed::types::extra::U27>, "FixedI32<U27>", 32, 27, true);
        $m!(fixed::FixedI32<fixed::types::extra::U28>, "FixedI32<U28>", 32, 28, true);
        $m!(fixed::FixedI32<fixed::types::extra::U29>, "FixedI32<U29>", 32, 29, true);
        $m!(fixed::FixedI64<fixed::types::extra::U0>, "FixedI64<U0>", 64, 0, true);
        $m!(fixed::FixedI64<fixed::types::extra::U1>, "FixedI64<U1>", 64, 1, true);
        $m!(fixed::FixedI64<fixed::types::extra::U2>, "FixedI64<U2>", 64, 2, true);
        $m!(fixed::FixedI64<fixed::types::extra::U3>, "FixedI64<U3>", 64, 3, true);
        $m!(fixed::FixedI64<fixed::types::extra::U4>, "FixedI64<U4>", 64, 4, true);
        $m!(fixed::FixedI64<fixed::types::extra::U5>, "FixedI64<U5>", 64, 5, true);
        $m!(fixed::FixedI64<fixed::types::extra::U6>, "FixedI64<U6>", 64, 6, true);
        $m!(fixed::FixedI64<fixed::types::extra::U7>, "FixedI64<U7>", 64, 7, true);
        $m!(fixed::FixedI64<fixed::types::extra::U8>, "FixedI64<U8>", 64, 8, true);
        $m!(fixed::FixedI64<fixed::types::extra::U9>, "FixedI64<U9>", 64, 9, true);
        $m!(fixed::FixedI64<fixed::types::extra::U10>, "FixedI64<U10>", 64, 10, true);
        $m!(fixed::FixedI64<fixed::types::extra::U11>, "FixedI64<U11>", 64, 11, true);
        $m!(fixed::FixedI64<fixed::types::extra::U12>, "FixedI64<U12>", 64, 12, true);
        $m!(fixed::FixedI64<fixed::types::extra::U13>, "FixedI64<U13>", 64, 13, true);
        $m!(fixed::FixedI64<fixed::types::extra::U14>, "FixedI64<U14>", 64, 14, true);
        $m!(fixed::FixedI64<fixed::types::extra::U15>, "FixedI64<U15>", 64, 15, true);
        $m!(fixed::FixedI64<fixed::types::extra::U16>, "FixedI64<U16>", 64, 16, true);
        $m!(fixed::FixedI64<fixed::types::extra::U17>, "FixedI64<U17>", 64, 17, true);
        $m!(fixed::FixedI64<fixed::types::extra::U18>, "FixedI64<U18>", 64, 18, true);
        $m!(fixed::FixedI64<fixed::types::extra::U19>, "FixedI64<U19>", 64, 19, true);
        $m!(fixed::FixedI64<fixed::types::extra::U20>, "FixedI64<U20>", 64, 20, true);
        $m!(fixed::FixedI64<fixed::types::extra::U21>, "FixedI64<U21>", 64, 21, true);
        $m!(fixed::FixedI64<fixed::types::extra::U22>, "FixedI64<U22>", 64, 22, true);
        $m!(fixed::FixedI64<fixed::types::extra::U23>, "FixedI64<U23>", 64, 23, true);
        $m!(fixed::FixedI64<fixed::types::extra::U24>, "FixedI64<U24>", 64, 24, true);
        $m!(fixed::FixedI64<fixed::types::extra::U25>, "FixedI64<U25>", 64, 25, true);
        $m!(fixed::FixedI64<fixed::types::extra::U26>, "FixedI64<U26>", 64, 26, true);
        $m!(fixed::FixedI64<fixed::types::extra::U27>, "FixedI64<U27>", 64, 27, true);
        $m!(fixed::FixedI64<fixed::types::extra::U28>, "FixedI64<U28>", 64, 28, true);
        $m!(fixed::FixedI64<fixed::types::extra::U29>, "FixedI64<U29>", 64, 29, true);
        $m!(fixed::FixedI64<fixed::types::extra::U30>, "FixedI64<U30>", 64, 30, true);
        $m!(fixed::FixedI64<fixed::types::extra::U31>, "FixedI64<U31>", 64, 31, true);
        $m!(fixed::FixedI64<fixed::types::extra::U32>, "FixedI64<U32>", 64, 32, true);
        $m!(fixed::FixedI64<fixed::types::extra::U33>, "FixedI64<U33>", 64, 33, true);
        $m!(fixed::FixedI64<fixed::types::extra::U34>, "FixedI64<U34>", 64, 34, true);
        $m!(fixed::FixedI64<fixed::types::extra::U35>, "FixedI64<U35>", 64, 35, true);
        $m!(fixed::FixedI64<fixed::types::extra::U36>, "FixedI64<U36>", 64, 36, true);
        $m!(fixed::FixedI64<fixed::types::extra::U37>, "FixedI64<U37>", 64, 37, true);
        $m!(fixed::FixedI64<fixed::types::extra::U38>, "FixedI64<U38>", 64, 38, true);
        $m!(fixed::FixedI64<fixed::types::extra::U39>, "FixedI64<U39>", 64, 39, true);
        $m!(fixed::FixedI64<fixed::types::extra::U40>, "FixedI64<U40>", 64, 40, true);
        $m!(fixed::FixedI64<fixed::types::extra::U41>, "FixedI64<U41>", 64, 41, true);
        $m!(fixed::FixedI64<fixed::types::extra::U42>, "FixedI64<U42>", 64, 42, true);
        $m!(fixed::FixedI64<fixed::types::extra::U43>, "FixedI64<U43>", 64, 43, true);
        $m!(fixed::FixedI64<fixed::types::extra::U44>, "FixedI64<U44>", 64, 44, true);
        $m!(fixed::FixedI64<fixed::types::extra::U45>, "FixedI64<U45>", 64, 45, true);
        $m!(fixed::FixedI64<fixed::types::extra::U46>, "FixedI64<U46>", 64, 46, true);
        $m!(fixed::FixedI64<fixed::types::extra::U47>, "FixedI64<U47>", 64, 47, true);
        $m!(fixed::FixedI64<fixed::types::extra::U48>, "FixedI64<U48>", 64, 48, true);
        $m!(fixed::FixedI64<fixed::types::extra::U49>, "FixedI64<U49>", 64, 49, true);
        $m!(fixed::FixedI64<fixed::types::extra::U50>, "FixedI64<U50>", 64, 50, true);
        $m!(fixed::FixedI64<fixed::types::extra::U51>, "FixedI64<U51>", 64, 51, true);
        $m!(fixed::FixedI64<fixed::types::extra::U52>, "FixedI64<U52>", 64, 52, true);
        $m!(fixed::FixedI64<fixed::types::extra::U53>, "FixedI64<U53>", 64, 53, true);
        $m!(fixed::FixedI64<fixed::types::extra::U54>, "FixedI64<U54>", 64, 54, true);
        $m!(fixed::FixedI64<fixed::types::extra::U55>, "FixedI64<U55>", 64, 55, true);
        $m!(fixed::FixedI64<fixed::types::extra::U56>, "FixedI64<U56>", 64, 56, true);
        $m!(fixed::FixedI64<fixed::types::extra::U57>, "FixedI64<U57>", 64, 57, true);
        $m!(fixed::FixedI64<fixed::types::extra::U58>, "FixedI64<U58>", 64, 58, true);
        $m!(fixed::FixedI64<fixed::types::extra::U59>, "FixedI64<U59>", 64, 59, true);
        $m!(fixed::FixedI64<fixed::types::extra::U60>, "FixedI64<U60>", 64, 60, true);
        $m!(fixed::FixedI64<fixed::types::extra::U61>, "FixedI64<U61>", 64, 61, true);
    };
}
#[macro_export]
macro_rules! unsigned_fixed {
    ($m:ident) => {
        $m!(fixed::FixedU8<fixed::types::extra::U0>, "FixedU8<U0>", 8, 0, false);
        $m!(fixed::FixedU8<fixed::types::extra::U1>, "FixedU8<U1>", 8, 1, false);
        $m!(fixed::FixedU8<fixed::types::extra::U2>, "FixedU8<U2>", 8, 2, false);
        $m!(fixed::FixedU8<fixed::types::extra::U3>, "FixedU8<U3>", 8, 3, false);
        $m!(fixed::FixedU8<fixed::types::extra::U4>, "FixedU8<U4>", 8, 4, false);
        $m!(fixed::FixedU8<fixed::types::extra::U5>, "FixedU8<U5>", 8, 5, false);
        $m!(fixed::FixedU16<fixed::types::extra::U0>, "FixedU16<U0>", 16, 0, false);
        $m!(fixed::FixedU16<fixed::types::extra::U1>, "FixedU16<U1>", 16, 1, false);
        $m!(fixed::FixedU16<fixed::types::extra::U2>, "FixedU16<U2>", 16, 2, false);
        $m!(fixed::FixedU16<fixed::types::extra::U3>, "FixedU16<U3>", 16, 3, false);
        $m!(fixed::FixedU16<fixed::types::extra::U4>, "FixedU16<U4>", 16, 4, false);
        $m!(fixed::FixedU16<fixed::types::extra::U5>, "FixedU16<U5>", 16, 5, false);
        $m!(fixed::FixedU16<fixed::types::extra::U6>, "FixedU16<U6>", 16, 6, false);
        $m!(fixed::FixedU16<fixed::types::extra::U7>, "FixedU16<U7>", 16, 7, false);
        $m!(fixed::FixedU16<fixed::types::extra::U8>, "FixedU16<U8>", 16, 8, false);
        $m!(fixed::FixedU16<fixed::types::extra::U9>, "FixedU16<U9>", 16, 9, false);
        $m!(fixed::FixedU16<fixed::types::extra::U10>, "FixedU16<U10>", 16, 10, false);
        $m!(fixed::FixedU16<fixed::types::extra::U11>, "FixedU16<U11>", 16, 11, false);
        $m!(fixed::FixedU16<fixed::types::extra::U12>, "FixedU16<U12>", 16, 12, false);
        $m!(fixed::FixedU16<fixed::types::extra::U13>, "FixedU16<U13>", 16, 13, false);
        $m!(fixed::FixedU32<fixed::types::extra::U0>, "FixedU32<U0>", 32, 0, false);
        $m!(fixed::FixedU32<fixed::types::extra::U1>, "FixedU32<U1>", 32, 1, false);
        $m!(fixed::FixedU32<fixed::types::extra::U2>, "FixedU32<U2>", 32, 2, false);
        $m!(fixed::FixedU32<fixed::types::extra::U3>, "FixedU32<U3>", 32, 3, false);
        $m!(fixed::FixedU32<fixed::types::extra::U4>, "FixedU32<U4>", 32, 4, false);
        $m!(fixed::FixedU32<fixed::types::extra::U5>, "FixedU32<U5>", 32, 5, false);
        $m!(fixed::FixedU32<fixed::types::extra::U6>, "FixedU32<U6>", 32, 6, false);
        $m!(fixed::FixedU32<fixed::types::extra::U7>, "FixedU32<U7>", 32, 7, false);
        $m!(fixed::FixedU32<fixed::types::extra::U8>, "FixedU32<U8>", 32, 8, false);
        $m!(fixed::FixedU32<fixed::types::extra::U9>, "FixedU32<U9>", 32, 9, false);
        $m!(fixed::FixedU32<fixed::types::extra::U10>, "FixedU32<U10>", 32, 10, false);
        $m!(fixed::FixedU32<fixed::types::extra::U11>, "FixedU32<U11>", 32, 11, false);
        $m!(fixed::FixedU32<fixed::types::extra::U12>, "FixedU32<U12>", 32, 12, false);
        $m!(fixed::FixedU32<fixed::types::extra::U13>, "FixedU32<U13>", 32, 13, false);
        $m!(fixed::FixedU32<fixed::types::extra::U14>, "FixedU32<U14>", 32, 14, false);
        $m!(fixed::FixedU32<fixed::types::extra::U15>, "FixedU32<U15>", 32, 15, false);
        $m!(fixed::FixedU32<fixed::types::extra::U16>, "FixedU32<U16>", 32, 16, false);
        $m!(fixed::FixedU32<fixed::types::extra::U17>, "FixedU32<U17>", 32, 17, false);
        $m!(fixed::FixedU32<fixed::types::extra::U18>, "FixedU32<U18>", 32, 18, false);
        $m!(fixed::FixedU32<fixed::types::extra::U19>, "FixedU32<U19>", 32, 19, false);
        $m!(fixed::FixedU32<fixed::types::extra::U20>, "FixedU32<U20>", 32, 20, false);
        $m!(fixed::FixedU32<fixed::types::extra::U21>, "FixedU32<U21>", 32, 21, false);
        $m!(fixed::FixedU32<fixed::types::extra::U22>, "FixedU32<U22>", 32, 22, false);
        $m!(fixed::FixedU32<fixed::types::extra::U23>, "FixedU32<U23>", 32, 23, false);
        $m!(fixed::FixedU32<fixed::types::extra::U24>, "FixedU32<U24>", 32, 24, false);
        $m!(fixed::FixedU32<fixed::types::extra::U25>, "FixedU32<U25>", 32, 25, false);
        $m!(fixed::FixedU32<fixed::types::extra::U26>, "FixedU32<U26>", 32, 26, false);
        $m!(fixed::FixedU32<fixed::types::extra::U27>, "FixedU32<U27>", 32, 27, false);
        $m!(fixed::FixedU32<fixed::types::extra::U28>, "FixedU32<U28>", 32, 28, false);
        $m!(fixed::FixedU32<fixed::types::extra::U29>, "FixedU32<U29>", 32, 29, false);
        $m!(fixed::FixedU64<fixed::types::extra::U0>, "FixedU64<U0>", 64, 0, false);
        $m!(fixed::FixedU64<fixed::types::extra::U1>, "FixedU64<U1>", 64, 1, false);
        $m!(fixed::FixedU64<fixed::types::extra::U2>, "FixedU64<U2>", 64, 2, false);
        $m!(fixed::FixedU64<fixed::types::extra::U3>, "FixedU64<U3>", 64, 3, false);
        $m!(fixed::FixedU64<fixed::types::extra::U4>, "FixedU64<U4>", 64, 4, false);
        $m!(fixed::FixedU64<fixed::types::extra::U5>, "FixedU64<U5>", 64, 5, false);
        $m!(fixed::FixedU64<fixed::types::extra::U6>, "FixedU64<U6>", 64, 6, false);
        $m!(fixed::FixedU64<fixed::types::extra::U7>, "FixedU64<U7>", 64, 7, false);
        $m!(fixed::FixedU64<fixed::types::extra::U8>, "FixedU64<U8>", 64, 8, false);
        $m!(fixed::FixedU64<fixed::types::extra::U9>, "FixedU64<U9>", 64, 9, false);
        $m!(fixed::FixedU64<fixed::types::extra::U10>, "FixedU64<U10>", 64, 10, false);
        $m!(fixed::FixedU64<fixed::types::extra::U11>, "FixedU64<U11>", 64, 11, false);
        $m!(fixed::FixedU64<fixed::types::extra::U12>, "FixedU64<U12>", 64, 12, false);
        $m!(fixed::FixedU64<fixed::types::extra::U13>, "FixedU64<U13>", 64, 13, false);
        $m!(fixed::FixedU64<fixed::types::extra::U14>, "FixedU64<U14>", 64, 14, false);
        $m!(fixed::FixedU64<fixed::types::extra::U15>, "FixedU64<U15>", 64, 15, false);
        $m!(fixed::FixedU64<fixed::types::extra::U16>, "FixedU64<U16>", 64, 16, false);
        $m!(fixed::FixedU64<fixed::types::extra::U17>, "FixedU64<U17>", 64, 17, false);
        $m!(fixed::FixedU64<fixed::types::extra::U18>, "FixedU64<U18>", 64, 18, false);
        $m!(fixed::FixedU64<fixed::types::extra::U19>, "FixedU64<U19>", 64, 19, false);
        $m!(fixed::FixedU64<fixed::types::extra::U20>, "FixedU64<U20>", 64, 20, false);
        $m!(fixed::FixedU64<fixed::types::extra::U21>, "FixedU64<U21>", 64, 21, false);
        $m!(fixed::FixedU64<fixed::types::extra::U22>, "FixedU64<U22>", 64, 22, false);
        $m!(fixed::FixedU64<fixed::types::extra::U23>, "FixedU64<U23>", 64, 23, false);
        $m!(fixed::FixedU64<fixed::types::extra::U24>, "FixedU64<U24>", 64, 24, false);
        $m!(fixed::FixedU64<fixed::types::extra::U25>, "FixedU64<U25>", 64, 25, false);
        $m!(fixed::FixedU64<fixed::types::extra::U26>, "FixedU64<U26>", 64, 26, false);
        $m!(fixed::FixedU64<fixed::types::extra::U27>, "FixedU64<U27>", 64, 27, false);
        $m!(fixed::FixedU64<fixed::types::extra::U28>, "FixedU64<U28>", 64, 28, false);
        $m!(fixed::FixedU64<fixed::types::extra::U29>, "FixedU64<U29>", 64, 29, false);
        $m!(fixed::FixedU64<fixed::types::extra::U30>, "FixedU64<U30>", 64, 30, false);
        $m!(fixed::FixedU64<fixed::types::extra::U31>, "FixedU64<U31>", 64, 31, false);
        $m!(fixed::FixedU64<fixed::types::extra::U32>, "FixedU64<U32>", 64, 32, false);
        $m!(fixed::FixedU64<fixed::types::extra::U33>, "FixedU64<U33>", 64, 33, false);
        $m!(fixed::FixedU64<fixed::types::extra::U34>, "FixedU64<U34>", 64, 34, false);
        $m!(fixed::FixedU64<fixed::types::extra::U35>, "FixedU64<U35>", 64, 35, false);
        $m!(fixed::FixedU64<fixed::types::extra::U36>, "FixedU64<U36>", 64, 36, false);
        $m!(fixed::FixedU64<fixed::types::extra::U37>, "FixedU64<U37>", 64, 37, false);
        $m!(fixed::FixedU64<fixed::types::extra::U38>, "FixedU64<U38>", 64, 38, false);
        $m!(fixed::FixedU64<fixed::types::extra::U39>, "FixedU64<U39>", 64, 39, false);
        $m!(fixed::FixedU64<fixed::types::extra::U40>, "FixedU64<U40>", 64, 40, false);
        $m!(fixed::FixedU64<fixed::types::extra::U41>, "FixedU64<U41>", 64, 41, false);
        $m!(fixed::FixedU64<fixed::types::extra::U42>, "FixedU64<U42>", 64, 42, false);
        $m!(fixed::FixedU64<fixed::types::extra::U43>, "FixedU64<U43>", 64, 43, false);
        $m!(fixed::FixedU64<fixed::types::extra::U44>, "FixedU64<U44>", 64, 44, false);
        $m!(fixed::FixedU64<fixed::types::extra::U45>, "FixedU64<U45>", 64, 45, false);
        $m!(fixed::FixedU64<fixed::types::extra::U46>, "FixedU64<U46>", 64, 46, false);
        $m!(fixed::FixedU64<fixed::types::extra::U47>, "FixedU64<U47>", 64, 47, false);
        $m!(fixed::FixedU64<fixed::types::extra::U48>, "FixedU64<U48>", 64, 48, false);
        $m!(fixed::FixedU64<fixed::types::extra::U49>, "FixedU64<U49>", 64, 49, false);
        $m!(fixed::FixedU64<fixed::types::extra::U50>, "FixedU64<U50>", 64, 50, false);
        $m!(fixed::FixedU64<fixed::types::extra::U51>, "FixedU64<U51>", 64, 51, false);
        $m!(fixed::FixedU64<fixed::types::extra::U52>, "FixedU64<U52>", 64, 52, false);
        $m!(fixed::FixedU64<fixed::types::extra::U53>, "FixedU64<U53>", 64, 53, false);
        $m!(fixed::FixedU64<fixed::types::extra::U54>, "FixedU64<U54>", 64, 54, false);
        $m!(fixed::FixedU64<fixed::types::extra::U55>, "FixedU64<U55>", 64, 55, false);
        $m!(fixed::FixedU64<fixed::types::extra::U56>, "FixedU64<U56>", 64, 56, false);
        $m!(fixed::FixedU64<fixed::types::extra::U57>, "FixedU64<U57>", 64, 57, false);
        $m!(fixed::FixedU64<fixed::types::extra::U58>, "FixedU64<U58>", 64, 58, false);
        $m!(fixed::FixedU64<fixed::types::extra::U59>, "FixedU64<U59>", 64, 59, false);
        $m!(fixed::FixedU64<fixed::types::extra::U60>, "FixedU64<U60>", 64, 60, false);
        $m!(fixed::FixedU64<fixed::types::extra::U61>, "FixedU64<U61>", 64, 61, false);
    };
}
#[macro_export]
macro_rules! signed_int {
    ($m:ident) => {
        $m!(i8, "i8", 8, true);
        $m!(i16, "i16", 16, true);
        $m!(i32, "i32", 32, true);
        $m!(i64, "i64", 64, true);
        $m!(i128, "i128", 128, true);
        $m!(isize, "isize", 64, true);
    };
}
#[macro_export]
macro_rules! unsigned_int {
    ($m:ident) => {
        $m!(u8, "u8", 8, false);
        $m!(u16, "u16", 16, false);
        $m!(u32, "u32", 32, false);
        $m!(u64, "u64", 64, false);
        $m!(u128, "u128", 128, false);
        $m!(usize, "usize", 64, false);
    };
}
/// Pairs of fixed-point types of the same resolution, the second of the next width.
#[macro_export]
macro_rules! widenings {
    ($m:ident) => {
        $m!(fixed::FixedI8<fixed::types::extra::U0>, fixed::FixedI16<fixed::types::extra::U0>);
        $m!(fixed::FixedI8<fixed::types::extra::U1>, fixed::FixedI16<fixed::types::extra::U1>);
        $m!(fixed::FixedI8<fixed::types::extra::U2>, fixed::FixedI16<fixed::types::extra::U2>);
        $m!(fixed::FixedI8<fixed::types::extra::U3>, fixed::FixedI16<fixed::types::extra::U3>);
        $m!(fixed::FixedI8<fixed::types::extra::U4>, fixed::FixedI16<fixed::types::extra::U4>);
        $m!(fixed::FixedI8<fixed::types::extra::U5>, fixed::FixedI16<fixed::types::extra::U5>);
        $m!(fixed::FixedI16<fixed::types::extra::U0>, fixed::FixedI32<fixed::types::extra::U0>);
        $m!(fixed::FixedI16<fixed::types::extra::U1>, fixed::FixedI32<fixed::types::extra::U1>);
        $m!(fixed::FixedI16<fixed::types::extra::U2>, fixed::FixedI32<fixed::types::extra::U2>);
        $m!(fixed::FixedI16<fixed::types::extra::U3>, fixed::FixedI32<fixed::types::extra::U3>);
        $m!(fixed::FixedI16<fixed::types::extra::U4>, fixed::FixedI32<fixed::types::extra::U4>);
        $m!(fixed::FixedI16<fixed::types::extra::U5>, fixed::FixedI32<fixed::types::extra::U5>);
        $m!(fixed::FixedI16<fixed::types::extra::U6>, fixed::FixedI32<fixed::types::extra::U6>);
        $m!(fixed::FixedI16<fixed::types::extra::U7>, fixed::FixedI32<fixed::types::extra::U7>);
        $m!(fixed::FixedI16<fixed::types::extra::U8>, fixed::FixedI32<fixed::types::extra::U8>);
        $m!(fixed::FixedI16<fixed::types::extra::U9>, fixed::FixedI32<fixed::types::extra::U9>);
        $m!(fixed::FixedI16<fixed::types::extra::U10>, fixed::FixedI32<fixed::types::extra::U10>);
        $m!(fixed::FixedI16<fixed::types::extra::U11>, fixed::FixedI32<fixed::types::extra::U11>);
        $m!(fixed::FixedI16<fixed::types::extra::U12>, fixed::FixedI32<fixed::types::extra::U12>);
        $m!(fixed::FixedI16<fixed::types::extra::U13>, fixed::FixedI32<fixed::types::extra::U13>);
        $m!(fixed::FixedI32<fixed::types::extra::U0>, fixed::FixedI64<fixed::types::extra::U0>);
        $m!(fixed::FixedI32<fixed::types::extra::U1>, fixed::FixedI64<fixed::types::extra::U1>);
        $m!(fixed::FixedI32<fixed::types::extra::U2>, fixed::FixedI64<fixed::types::extra::U2>);
        $m!(fixed::FixedI32<fixed::types::extra::U3>, fixed::FixedI64<fixed::types::extra::U3>);
        $m!(fixed::FixedI32<fixed::types::extra::U4>, fixed::FixedI64<fixed::types::extra::U4>);
        $m!(fixed::FixedI32<fixed::types::extra::U5>, fixed::FixedI64<fixed::types::extra::U5>);
        $m!(fixed::FixedI32<fixed::types::extra::U6>, fixed::FixedI64<fixed::types::extra::U6>);
        $m!(fixed::FixedI32<fixed::types::extra::U7>, fixed::FixedI64<fixed::types::extra::U7>);
        $m!(fixed::FixedI32<fixed::types::extra::U8>, fixed::FixedI64<fixed::types::extra::U8>);
        $m!(fixed::FixedI32<fixed::types::extra::U9>, fixed::FixedI64<fixed::types::extra::U9>);
        $m!(fixed::FixedI32<fixed::types::extra::U10>, fixed::FixedI64<fixed::types::extra::U10>);
        $m!(fixed::FixedI32<fixed::types::extra::U11>, fixed::FixedI64<fixed::types::extra::U11>);
        $m!(fixed::FixedI32<fixed::types::extra::U12>, fixed::FixedI64<fixed::types::extra::U12>);
        $m!(fixed::FixedI32<fixed::types::extra::U13>, fixed::FixedI64<fixed::types::extra::U13>);
        $m!(fixed::FixedI32<fixed::types::extra::U14>, fixed::FixedI64<fixed::types::extra::U14>);
        $m!(fixed::FixedI32<fixed::types::extra::U15>, fixed::FixedI64<fixed::types::extra::U15>);
        $m!(fixed::FixedI32<fixed::types::extra::U16>, fixed::FixedI64<fixed::types::extra::U16>);
        $m!(fixed::FixedI32<fixed::types::extra::U17>, fixed::FixedI64<fixed::types::extra::U17>);
        $m!(fixed::FixedI32<fixed::types::extra::U18>, fixed::FixedI64<fixed::types::extra::U18>);
        $m!(fixed::FixedI32<fixed::types::extra::U19>, fixed::FixedI64<fixed::types::extra::U19>);
        $m!(fixed::FixedI32<fixed::types::extra::U20>, fixed::FixedI64<fixed::types::extra::U20>);
        $m!(fixed::FixedI32<fixed::types::extra::U21>, fixed::FixedI64<fixed::types::extra::U21>);
        $m!(fixed::FixedI32<fixed::types::extra::U22>, fixed::FixedI64<fixed::types::extra::U22>);
        $m!(fixed::FixedI32<fixed::types::extra::U23>, fixed::FixedI64<fixed::types::extra::U23>);
        $m!(fixed::FixedI32<fixed::types::extra::U24>, fixed::FixedI64<fixed::types::extra::U24>);
        $m!(fixed::FixedI32<fixed::types::extra::U25>, fixed::FixedI64<fixed::types::extra::U25>);
        $m!(fixed::FixedI32<fixed::types::extra::U26>, fixed::FixedI64<fixed::types::extra::U26>);
        $m!(fixed::FixedI32<fixed::types::extra::U27>, fixed::FixedI64<fixed::types::extra::U27>);
        $m!(fixed::FixedI32<fixed::types::extra::U28>, fixed::FixedI64<fixed::types::extra::U28>);
        $m!(fixed::FixedI32<fixed::types::extra::U29>, fixed::FixedI64<fixed::types::extra::U29>);
    };
}
/// Pairs of fixed-point types of the same resolution, the second of the next width.
#[macro_export]
macro_rules! unsigned_widenings {
    ($m:ident) => {
        $m!(fixed::FixedU8<fixed::types::extra::U0>, fixed::FixedU16<fixed::types::extra::U0>);
        $m!(fixed::FixedU8<fixed::types::extra::U1>, fixed::FixedU16<fixed::types::extra::U1>);
        $m!(fixed::FixedU8<fixed::types::extra::U2>, fixed::FixedU16<fixed::types::extra::U2>);
        $m!(fixed::FixedU8<fixed::types::extra::U3>, fixed::FixedU16<fixed::types::extra::U3>);
        $m!(fixed::FixedU8<fixed::types::extra::U4>, fixed::FixedU16<fixed::types::extra::U4>);
        $m!(fixed::FixedU8<fixed::types::extra::U5>, fixed::FixedU16<fixed::types::extra::U5>);
        $m!(fixed::FixedU16<fixed::types::extra::U0>, fixed::FixedU32<fixed::types::extra::U0>);
        $m!(fixed::FixedU16<fixed::types::extra::U1>, fixed::FixedU32<fixed::types::extra::U1>);
        $m!(fixed::FixedU16<fixed::types::extra::U2>, fixed::FixedU32<fixed::types::extra::U2>);
        $m!(fixed::FixedU16<fixed::types::extra::U3>, fixed::FixedU32<fixed::types::extra::U3>);
        $m!(fixed::FixedU16<fixed::types::extra::U4>, fixed::FixedU32<fixed::types::extra::U4>);
        $m!(fixed::FixedU16<fixed::types::extra::U5>, fixed::FixedU32<fixed::types::extra::U5>);
        $m!(fixed::FixedU16<fixed::types::extra::U6>, fixed::FixedU32<fixed::types::extra::U6>);
        $m!(fixed::FixedU16<fixed::types::extra::U7>, fixed::FixedU32<fixed::types::extra::U7>);
        $m!(fixed::FixedU16<fixed::types::extra::U8>, fixed::FixedU32<fixed::types::extra::U8>);
        $m!(fixed::FixedU16<fixed::types::extra::U9>, fixed::FixedU32<fixed::types::extra::U9>);
        $m!(fixed::FixedU16<fixed::types::extra::U10>, fixed::FixedU32<fixed::types::extra::U10>);
        $m!(fixed::FixedU16<fixed::types::extra::U11>, fixed::FixedU32<fixed::types::extra::U11>);
        $m!(fixed::FixedU16<fixed::types::extra::U12>, fixed::FixedU32<fixed::types::extra::U12>);
        $m!(fixed::FixedU16<fixed::types::extra::U13>, fixed::FixedU32<fixed::types::extra::U13>);
        $m!(fixed::FixedU32<fixed::types::extra::U0>, fixed::FixedU64<fixed::types::extra::U0>);
        $m!(fixed::FixedU32<fixed::types::extra::U1>, fixed::FixedU64<fixed::types::extra::U1>);
        $m!(fixed::FixedU32<fixed::types::extra::U2>, fixed::FixedU64<fixed::types::extra::U2>);
        $m!(fixed::FixedU32<fixed::types::extra::U3>, fixed::FixedU64<fixed::types::extra::U3>);
        $m!(fixed::FixedU32<fixed::types::extra::U4>, fixed::FixedU64<fixed::types::extra::U4>);
        $m!(fixed::FixedU32<fixed::types::extra::U5>, fixed::FixedU64<fixed::types::extra::U5>);
        $m!(fixed::FixedU32<fixed::types::extra::U6>, fixed::FixedU64<fixed::types::extra::U6>);
        $m!(fixed::FixedU32<fixed::types::extra::U7>, fixed::FixedU64<fixed::types::extra::U7>);
        $m!(fixed::FixedU32<fixed::types::extra::U8>, fixed::FixedU64<fixed::types::extra::U8>);
        $m!(fixed::FixedU32<fixed::types::extra::U9>, fixed::FixedU64<fixed::types::extra::U9>);
        $m!(fixed::FixedU32<fixed::types::extra::U10>, fixed::FixedU64<fixed::types::extra::U10>);
        $m!(fixed::FixedU32<fixed::types::extra::U11>, fixed::FixedU64<fixed::types::extra::U11>);
        $m!(fixed::FixedU32<fixed::types::extra::U12>, fixed::FixedU64<fixed::types::extra::U12>);
        $m!(fixed::FixedU32<fixed::types::extra::U13>, fixed::FixedU64<fixed::types::extra::U13>);
        $m!(fixed::FixedU32<fixed::types::extra::U14>, fixed::FixedU64<fixed::types::extra::U14>);
        $m!(fixed::FixedU32<fixed::types::extra::U15>, fixed::FixedU64<fixed::types::extra::U15>);
        $m!(fixed::FixedU32<fixed::types::extra::U16>, fixed::FixedU64<fixed::types::extra::U16>);
        $m!(fixed::FixedU32<fixed::types::extra::U17>, fixed::FixedU64<fixed::types::extra::U17>);
        $m!(fixed::FixedU32<fixed::types::extra::U18>, fixed::FixedU64<fixed::types::extra::U18>);
        $m!(fixed::FixedU32<fixed::types::extra::U19>, fixed::FixedU64<fixed::types::extra::U19>);
        $m!(fixed::FixedU32<fixed::types::extra::U20>, fixed::FixedU64<fixed::types::extra::U20>);
        $m!(fixed::FixedU32<fixed::types::extra::U21>, fixed::FixedU64<fixed::types::extra::U21>);
        $m!(fixed::FixedU32<fixed::types::extra::U22>, fixed::FixedU64<fixed::types::extra::U22>);
        $m!(fixed::FixedU32<fixed::types::extra::U23>, fixed::FixedU64<fixed::types::extra::U23>);
        $m!(fixed::FixedU32<fixed::types::extra::U24>, fixed::FixedU64<fixed::types::extra::U24>);
        $m!(fixed::FixedU32<fixed::types::extra::U25>, fixed::FixedU64<fixed::types::extra::U25>);
        $m!(fixed::FixedU32<fixed::types::extra::U26>, fixed::FixedU64<fixed::types::extra::U26>);
        $m!(fixed::FixedU32<fixed::types::extra::U27>, fixed::FixedU64<fixed::types::extra::U27>);
        $m!(fixed::FixedU32<fixed::types::extra::U28>, fixed::FixedU64<fixed::types::extra::U28>);
        $m!(fixed::FixedU32<fixed::types::extra::U29>, fixed::FixedU64<fixed::types::extra::U29>);
    };
}
