use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr, Member, Path};

#[derive(Default)]
struct Opts {
    enum_b: Option<String>,
    struct_b: Option<String>,
    skip_ser: bool,
    skip_de: bool,
    with: Option<Path>,
}
fn opts(attrs: &[syn::Attribute]) -> Opts {
    let mut o = Opts::default();
    for a in attrs.iter().filter(|a| a.path().is_ident("ssz")) {
        a.parse_nested_meta(|m| {
            let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match n.as_str() {
                "enum_behaviour" => o.enum_b = Some(m.value()?.parse::<LitStr>()?.value()),
                "struct_behaviour" => o.struct_b = Some(m.value()?.parse::<LitStr>()?.value()),
                "with" => o.with = Some(m.value()?.parse::<LitStr>()?.parse()?),
                "skip_serializing" => o.skip_ser = true,
                "skip_deserializing" => o.skip_de = true,
                x => panic!("unsupported ssz attribute {x}"),
            }
            Ok(())
        })
        .expect("ssz attribute");
    }
    o
}
struct F {
    m: Member,
    ty: syn::Type,
    o: Opts,
}
fn fields(f: &syn::Fields) -> Vec<F> {
    f.iter()
        .enumerate()
        .map(|(i, f)| F {
            m: match &f.ident {
                Some(n) => Member::Named(n.clone()),
                None => Member::from(i),
            },
            ty: f.ty.clone(),
            o: opts(&f.attrs),
        })
        .collect()
}

#[proc_macro_derive(Encode, attributes(ssz))]
pub fn encode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let o = opts(&d.attrs);
    let body = match &d.data {
        Data::Struct(s) => {
            let fs: Vec<F> = fields(&s.fields).into_iter().filter(|f| !f.o.skip_ser).collect();
            if o.struct_b.as_deref() == Some("transparent") {
                let (m, t) = (&fs[0].m, &fs[0].ty);
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#t as ssz::Encode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#t as ssz::Encode>::ssz_fixed_len() }
                    fn ssz_bytes_len(&self) -> usize { ssz::Encode::ssz_bytes_len(&self.#m) }
                    fn ssz_append(&self, buf: &mut Vec<u8>) { ssz::Encode::ssz_append(&self.#m, buf) }
                }
            } else {
                let isf: Vec<_> = fs.iter().map(|f| match &f.o.with {
                    Some(p) => quote! { #p::encode::is_ssz_fixed_len() },
                    None => { let t = &f.ty; quote! { <#t as ssz::Encode>::is_ssz_fixed_len() } }
                }).collect();
                let fl: Vec<_> = fs.iter().map(|f| match &f.o.with {
                    Some(p) => quote! { #p::encode::ssz_fixed_len() },
                    None => { let t = &f.ty; quote! { <#t as ssz::Encode>::ssz_fixed_len() } }
                }).collect();
                let bl: Vec<_> = fs.iter().map(|f| { let m = &f.m; match &f.o.with {
                    Some(p) => quote! { #p::encode::ssz_bytes_len(&self.#m) },
                    None => quote! { ssz::Encode::ssz_bytes_len(&self.#m) },
                }}).collect();
                let ap: Vec<_> = fs.iter().map(|f| { let m = &f.m; match &f.o.with {
                    Some(p) => quote! { encoder.append_parameterized(#p::encode::is_ssz_fixed_len(), |buf| #p::encode::ssz_append(&self.#m, buf)); },
                    None => quote! { encoder.append(&self.#m); },
                }}).collect();
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #( && #isf )* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() { 0usize #( + #fl )* } else { ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    fn ssz_bytes_len(&self) -> usize {
                        if <Self as ssz::Encode>::is_ssz_fixed_len() { <Self as ssz::Encode>::ssz_fixed_len() } else {
                            0usize #( + if #isf { #fl } else { ssz::BYTES_PER_LENGTH_OFFSET + #bl } )*
                        }
                    }
                    fn ssz_append(&self, buf: &mut Vec<u8>) {
                        let off = 0usize #( + #fl )*;
                        let mut encoder = ssz::SszEncoder::container(buf, off);
                        #( #ap )*
                        encoder.finalize();
                    }
                }
            }
        }
        Data::Enum(e) => {
            let b = o.enum_b.as_deref().expect("enum_behaviour");
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            match b {
                "transparent" => {
                    let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().unwrap().ty.clone()).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { assert!(true #( && !<#tys as ssz::Encode>::is_ssz_fixed_len() )*); false }
                        fn ssz_bytes_len(&self) -> usize { match self { #( Self::#vs(x) => ssz::Encode::ssz_bytes_len(x) ),* } }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #( Self::#vs(x) => ssz::Encode::ssz_append(x, buf) ),* } }
                    }
                }
                "union" => {
                    let idx: Vec<u8> = (0..vs.len() as u8).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn ssz_bytes_len(&self) -> usize { match self { #( Self::#vs(x) => ssz::Encode::ssz_bytes_len(x) + 1 ),* } }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { match self { #( Self::#vs(x) => { buf.push(#idx); ssz::Encode::ssz_append(x, buf) } ),* } }
                    }
                }
                "tag" => {
                    let idx: Vec<u8> = (0..vs.len() as u8).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { true }
                        fn ssz_fixed_len() -> usize { 1 }
                        fn ssz_bytes_len(&self) -> usize { 1 }
                        fn ssz_append(&self, buf: &mut Vec<u8>) { buf.push(match self { #( Self::#vs => #idx ),* }) }
                    }
                }
                x => panic!("enum_behaviour {x}"),
            }
        }
        _ => panic!("unsupported"),
    };
    quote! { impl #ig ssz::Encode for #n #tg #wc { #body } }.into()
}

#[proc_macro_derive(Decode, attributes(ssz))]
pub fn decode(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let o = opts(&d.attrs);
    let body = match &d.data {
        Data::Struct(s) => {
            let all = fields(&s.fields);
            if o.struct_b.as_deref() == Some("transparent") {
                let f = all.iter().find(|f| !f.o.skip_de).unwrap();
                let (m, t) = (&f.m, &f.ty);
                let rest = all.iter().filter(|f| f.o.skip_de).map(|f| { let m = &f.m; quote! { #m: Default::default() } });
                quote! {
                    fn is_ssz_fixed_len() -> bool { <#t as ssz::Decode>::is_ssz_fixed_len() }
                    fn ssz_fixed_len() -> usize { <#t as ssz::Decode>::ssz_fixed_len() }
                    fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                        Ok(Self { #m: <#t as ssz::Decode>::from_ssz_bytes(bytes)?, #( #rest ),* })
                    }
                }
            } else {
                let fs: Vec<&F> = all.iter().filter(|f| !f.o.skip_de).collect();
                let isf: Vec<_> = fs.iter().map(|f| match &f.o.with {
                    Some(p) => quote! { #p::decode::is_ssz_fixed_len() },
                    None => { let t = &f.ty; quote! { <#t as ssz::Decode>::is_ssz_fixed_len() } }
                }).collect();
                let fl: Vec<_> = fs.iter().map(|f| match &f.o.with {
                    Some(p) => quote! { #p::decode::ssz_fixed_len() },
                    None => { let t = &f.ty; quote! { <#t as ssz::Decode>::ssz_fixed_len() } }
                }).collect();
                let inits: Vec<_> = all.iter().map(|f| {
                    let m = &f.m; let t = &f.ty;
                    if f.o.skip_de { return quote! { #m: Default::default() }; }
                    match &f.o.with {
                        Some(p) => quote! { #m: decoder.decode_next_with(|slice| #p::decode::from_ssz_bytes(slice))? },
                        None => quote! { #m: decoder.decode_next::<#t>()? },
                    }
                }).collect();
                quote! {
                    fn is_ssz_fixed_len() -> bool { true #( && #isf )* }
                    fn ssz_fixed_len() -> usize {
                        if <Self as ssz::Decode>::is_ssz_fixed_len() { 0usize #( + #fl )* } else { ssz::BYTES_PER_LENGTH_OFFSET }
                    }
                    fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                        let mut builder = ssz::SszDecoderBuilder::new(bytes);
                        #( builder.register_type_parameterized(#isf, #fl)?; )*
                        let mut decoder = builder.build()?;
                        Ok(Self { #( #inits ),* })
                    }
                }
            }
        }
        Data::Enum(e) => {
            let b = o.enum_b.as_deref().expect("enum_behaviour");
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let idx: Vec<u8> = (0..vs.len() as u8).collect();
            match b {
                "transparent" => {
                    let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().unwrap().ty.clone()).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                            #( if let Ok(v) = <#tys as ssz::Decode>::from_ssz_bytes(bytes) { return Ok(Self::#vs(v)); } )*
                            Err(ssz::DecodeError::NoMatchingVariant)
                        }
                    }
                }
                "union" => {
                    let tys: Vec<_> = e.variants.iter().map(|v| v.fields.iter().next().unwrap().ty.clone()).collect();
                    quote! {
                        fn is_ssz_fixed_len() -> bool { false }
                        fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                            let (selector, body) = ssz::split_union_bytes(bytes)?;
                            match u8::from(selector) {
                                #( #idx => <#tys as ssz::Decode>::from_ssz_bytes(body).map(Self::#vs), )*
                                other => Err(ssz::DecodeError::UnionSelectorInvalid(other)),
                            }
                        }
                    }
                }
                "tag" => quote! {
                    fn is_ssz_fixed_len() -> bool { true }
                    fn ssz_fixed_len() -> usize { 1 }
                    fn from_ssz_bytes(bytes: &[u8]) -> std::result::Result<Self, ssz::DecodeError> {
                        let byte = *bytes.first().ok_or(ssz::DecodeError::OutOfBoundsByte { i: 0 })?;
                        match byte { #( #idx => Ok(Self::#vs), )* other => Err(ssz::DecodeError::UnionSelectorInvalid(other)) }
                    }
                },
                x => panic!("enum_behaviour {x}"),
            }
        }
        _ => panic!("unsupported"),
    };
    quote! { impl #ig ssz::Decode for #n #tg #wc { #body } }.into()
}
