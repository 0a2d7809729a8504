use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Member};

struct F {
    m: Member,
    skip: bool,
    default: bool,
}
fn rlp_flags(attrs: &[syn::Attribute]) -> (bool, bool, bool) {
    let (mut skip, mut default, mut trailing) = (false, false, false);
    for a in attrs.iter().filter(|a| a.path().is_ident("rlp")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("skip") { skip = true }
            if m.path.is_ident("default") { default = true }
            if m.path.is_ident("trailing") { trailing = true }
            Ok(())
        });
    }
    (skip, default, trailing)
}
fn fields(d: &DeriveInput) -> Vec<F> {
    let Data::Struct(s) = &d.data else { panic!("struct expected") };
    s.fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let (skip, default, _) = rlp_flags(&f.attrs);
            F {
                m: match &f.ident { Some(n) => Member::Named(n.clone()), None => Member::from(i) },
                skip,
                default,
            }
        })
        .collect()
}

#[proc_macro_derive(RlpEncodable, attributes(rlp))]
pub fn enc(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let ms: Vec<_> = fields(&d).into_iter().filter(|f| !f.skip).map(|f| f.m).collect();
    quote! {
        impl #ig ::alloy_rlp::Encodable for #n #tg #wc {
            fn length(&self) -> usize {
                let payload_length = 0usize #( + ::alloy_rlp::Encodable::length(&self.#ms) )*;
                payload_length + ::alloy_rlp::length_of_length(payload_length)
            }
            fn encode(&self, out: &mut dyn ::alloy_rlp::BufMut) {
                let payload_length = 0usize #( + ::alloy_rlp::Encodable::length(&self.#ms) )*;
                ::alloy_rlp::Header { list: true, payload_length }.encode(out);
                #( ::alloy_rlp::Encodable::encode(&self.#ms, out); )*
            }
        }
    }
    .into()
}

#[proc_macro_derive(RlpDecodable, attributes(rlp))]
pub fn dec(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let inits = fields(&d).into_iter().map(|f| {
        let m = f.m;
        if f.skip || f.default {
            quote! { #m: ::core::default::Default::default() }
        } else {
            quote! { #m: ::alloy_rlp::Decodable::decode(b)? }
        }
    });
    quote! {
        impl #ig ::alloy_rlp::Decodable for #n #tg #wc {
            fn decode(b: &mut &[u8]) -> ::alloy_rlp::Result<Self> {
                let head = ::alloy_rlp::Header::decode(b)?;
                if !head.list { return Err(::alloy_rlp::Error::UnexpectedString); }
                let started = b.len();
                if started < head.payload_length { return Err(::alloy_rlp::Error::InputTooShort); }
                let this = Self { #( #inits ),* };
                let consumed = started - b.len();
                if consumed != head.payload_length {
                    return Err(::alloy_rlp::Error::ListLengthMismatch { expected: head.payload_length, got: consumed });
                }
                Ok(this)
            }
        }
    }
    .into()
}

fn only(d: &DeriveInput) -> Member {
    let Data::Struct(s) = &d.data else { panic!() };
    match &s.fields {
        Fields::Unnamed(_) => Member::from(0),
        f => Member::Named(f.iter().next().unwrap().ident.clone().unwrap()),
    }
}
#[proc_macro_derive(RlpEncodableWrapper, attributes(rlp))]
pub fn encw(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let m = only(&d);
    quote! {
        impl #ig ::alloy_rlp::Encodable for #n #tg #wc {
            fn length(&self) -> usize { ::alloy_rlp::Encodable::length(&self.#m) }
            fn encode(&self, out: &mut dyn ::alloy_rlp::BufMut) { ::alloy_rlp::Encodable::encode(&self.#m, out) }
        }
    }
    .into()
}
#[proc_macro_derive(RlpDecodableWrapper, attributes(rlp))]
pub fn decw(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let m = only(&d);
    quote! {
        impl #ig ::alloy_rlp::Decodable for #n #tg #wc {
            fn decode(b: &mut &[u8]) -> ::alloy_rlp::Result<Self> { Ok(Self { #m: ::alloy_rlp::Decodable::decode(b)? }) }
        }
    }
    .into()
}
#[proc_macro_derive(RlpMaxEncodedLen, attributes(rlp))]
pub fn maxlen(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
