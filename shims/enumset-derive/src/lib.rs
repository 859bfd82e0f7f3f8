use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput};

/// Field-less enums with implicit discriminants only.
#[proc_macro_derive(EnumSetType, attributes(enumset))]
pub fn derive_enum_set_type(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Enum(data) = &input.data else { panic!("EnumSetType: not an enum") };
    let variants: Vec<_> = data.variants.iter().map(|v| &v.ident).collect();
    let n = variants.len() as u32;
    quote! {
        impl ::core::clone::Clone for #name { #[inline] fn clone(&self) -> Self { *self } }
        impl ::core::marker::Copy for #name {}
        impl ::core::cmp::PartialEq for #name {
            #[inline] fn eq(&self, other: &Self) -> bool { *self as u32 == *other as u32 }
        }
        impl ::core::cmp::Eq for #name {}
        impl ::enumset::EnumSetType for #name {
            const COUNT: u32 = #n;
            fn to_bit(self) -> u32 { self as u32 }
            fn from_bit(bit: u32) -> Self {
                const ALL: &[#name] = &[#(#name::#variants),*];
                ALL[bit as usize]
            }
        }
        impl #name {
            #[doc(hidden)]
            pub const fn __enumset_bit(self) -> u128 { 1u128 << (self as u32) }
        }
        impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::BitOr<O> for #name {
            type Output = ::enumset::EnumSet<#name>;
            fn bitor(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) | o.into() }
        }
        impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::BitAnd<O> for #name {
            type Output = ::enumset::EnumSet<#name>;
            fn bitand(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) & o.into() }
        }
        impl<O: ::core::convert::Into<::enumset::EnumSet<#name>>> ::core::ops::Sub<O> for #name {
            type Output = ::enumset::EnumSet<#name>;
            fn sub(self, o: O) -> Self::Output { ::enumset::EnumSet::only(self) - o.into() }
        }
        impl ::core::ops::Not for #name {
            type Output = ::enumset::EnumSet<#name>;
            fn not(self) -> Self::Output { !::enumset::EnumSet::only(self) }
        }
    }
    .into()
}
