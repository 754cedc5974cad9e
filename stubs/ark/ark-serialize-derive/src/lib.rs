//! Field-by-field derives, as in arkworks.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Index};
fn fields(d: &DeriveInput) -> (Vec<proc_macro2::TokenStream>, Vec<syn::Type>, bool) {
    match &d.data {
        Data::Struct(s) => match &s.fields {
            Fields::Named(f) => (f.named.iter().map(|x| { let i = x.ident.clone().unwrap(); quote!(#i) }).collect(), f.named.iter().map(|x| x.ty.clone()).collect(), true),
            Fields::Unnamed(f) => (f.unnamed.iter().enumerate().map(|(i, _)| { let i = Index::from(i); quote!(#i) }).collect(), f.unnamed.iter().map(|x| x.ty.clone()).collect(), false),
            Fields::Unit => (vec![], vec![], true),
        },
        _ => panic!("struct expected"),
    }
}
#[proc_macro_derive(CanonicalSerialize)]
pub fn ser(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let (f, _, _) = fields(&d);
    let n = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    quote!(impl #ig ark_serialize::CanonicalSerialize for #n #tg #wc {
        fn serialize_with_mode<W: ark_serialize::Write>(&self, mut w: W, c: ark_serialize::Compress) -> Result<(), ark_serialize::SerializationError> {
            #(ark_serialize::CanonicalSerialize::serialize_with_mode(&self.#f, &mut w, c)?;)*
            Ok(())
        }
        fn serialized_size(&self, c: ark_serialize::Compress) -> usize { 0 #(+ ark_serialize::CanonicalSerialize::serialized_size(&self.#f, c))* }
    }).into()
}
#[proc_macro_derive(CanonicalDeserialize)]
pub fn de(t: TokenStream) -> TokenStream {
    let d = parse_macro_input!(t as DeriveInput);
    let (f, ty, named) = fields(&d);
    let n = &d.ident;
    let (ig, tg, wc) = d.generics.split_for_impl();
    let vals = ty.iter().map(|t| quote!(<#t as ark_serialize::CanonicalDeserialize>::deserialize_with_mode(&mut r, c, v)?));
    let body = if named { quote!(Self { #(#f: #vals),* }) } else { quote!(Self(#(#vals),*)) };
    quote!(impl #ig ark_serialize::CanonicalDeserialize for #n #tg #wc {
        fn deserialize_with_mode<D: ark_serialize::Read>(mut r: D, c: ark_serialize::Compress, v: ark_serialize::Validate) -> Result<Self, ark_serialize::SerializationError> { Ok(#body) }
    }).into()
}
