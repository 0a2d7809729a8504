//! Generates one struct per variant plus an enum over them, with the interface of `superstruct`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{
    parse::Parser, parse_macro_input, punctuated::Punctuated, Field, Ident, ItemStruct, Lit, Meta,
    Token,
};

fn snake(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                o.push('_');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(c);
        }
    }
    o
}
fn metas(ts: proc_macro2::TokenStream) -> Vec<Meta> {
    Punctuated::<Meta, Token![,]>::parse_terminated.parse2(ts).expect("superstruct arguments").into_iter().collect()
}
fn sub(m: &Meta) -> Vec<Meta> {
    match m {
        Meta::List(l) => metas(l.tokens.clone()),
        _ => vec![],
    }
}
fn idents(m: &Meta) -> Vec<Ident> {
    sub(m).iter().map(|m| m.path().get_ident().unwrap().clone()).collect()
}
struct FieldInfo {
    f: Field,
    only: Option<Vec<Ident>>,
    getter: Ident,
    copy: bool,
    no_mut: bool,
}

#[proc_macro_attribute]
pub fn superstruct(args: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as ItemStruct);
    let mut variants = vec![];
    let mut vattrs: Vec<Meta> = vec![];
    let mut refattrs: Vec<Meta> = vec![];
    for m in metas(args.into()) {
        let n = m.path().get_ident().unwrap().to_string();
        match n.as_str() {
            "variants" => variants = idents(&m),
            "variant_attributes" => vattrs = sub(&m),
            "ref_attributes" => refattrs = sub(&m),
            "no_enum" | "partial_getter_error" | "cast_error" | "enum_variant_attributes" | "ref_mut_attributes" => {}
            x => panic!("unsupported superstruct argument {x}"),
        }
    }
    let vis = &item.vis;
    let name = &item.ident;
    let (ig, tg, wc) = item.generics.split_for_impl();
    let mut fields: Vec<FieldInfo> = vec![];
    for f in &item.fields {
        let mut f = f.clone();
        let fname = f.ident.clone().unwrap();
        let mut info = (None, fname.clone(), false, false);
        for a in f.attrs.iter().filter(|a| a.path().is_ident("superstruct")) {
            for m in sub(&a.meta) {
                let n = m.path().get_ident().unwrap().to_string();
                match n.as_str() {
                    "only" => info.0 = Some(idents(&m)),
                    "getter" | "partial_getter" => {
                        for o in sub(&m) {
                            match o.path().get_ident().unwrap().to_string().as_str() {
                                "rename" => {
                                    if let Meta::NameValue(nv) = &o {
                                        if let syn::Expr::Lit(syn::ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                            info.1 = format_ident!("{}", s.value());
                                        }
                                    }
                                }
                                "copy" => info.2 = true,
                                "no_mut" => info.3 = true,
                                x => panic!("getter option {x}"),
                            }
                        }
                    }
                    x => panic!("superstruct field option {x}"),
                }
            }
        }
        f.attrs.retain(|a| !a.path().is_ident("superstruct"));
        fields.push(FieldInfo { f, only: info.0, getter: info.1, copy: info.2, no_mut: info.3 });
    }
    let has = |fi: &FieldInfo, v: &Ident| fi.only.as_ref().map_or(true, |o| o.contains(v));
    let vnames: Vec<Ident> = variants.iter().map(|v| format_ident!("{}{}", name, v)).collect();
    let mut out = quote! {};
    let generics = &item.generics;
    for (v, vn) in variants.iter().zip(&vnames) {
        let fs = fields.iter().filter(|f| has(f, v)).map(|f| &f.f);
        out.extend(quote! {
            #( #[#vattrs] )*
            #vis struct #vn #generics #wc { #( #fs ),* }
            impl #ig From<#vn #tg> for #name #tg #wc { fn from(v: #vn #tg) -> Self { Self::#v(v) } }
        });
    }
    let attrs = &item.attrs;
    let refn = format_ident!("{}Ref", name);
    let refmutn = format_ident!("{}RefMut", name);
    let mut rg = item.generics.clone();
    rg.params.insert(0, syn::parse_quote!('__superstruct));
    let (rig, rtg, rwc) = rg.split_for_impl();
    out.extend(quote! {
        #( #attrs )*
        #vis enum #name #generics #wc { #( #variants(#vnames #tg) ),* }
        #( #[#refattrs] )*
        #vis enum #refn #rg #rwc { #( #variants(&'__superstruct #vnames #tg) ),* }
        #vis enum #refmutn #rg #rwc { #( #variants(&'__superstruct mut #vnames #tg) ),* }
        impl #rig Clone for #refn #rtg #rwc { fn clone(&self) -> Self { *self } }
        impl #rig Copy for #refn #rtg #rwc {}
        #( impl #rig From<&'__superstruct #vnames #tg> for #refn #rtg #rwc { fn from(v: &'__superstruct #vnames #tg) -> Self { Self::#variants(v) } } )*
    });
    // getters
    let (mut en, mut rf, mut rm) = (quote! {}, quote! {}, quote! {});
    let mut done: Vec<String> = vec![];
    for fi in &fields {
        let g = &fi.getter;
        if done.contains(&g.to_string()) {
            continue;
        }
        done.push(g.to_string());
        let fname = fi.f.ident.as_ref().unwrap();
        let ty = &fi.f.ty;
        let gm = format_ident!("{}_mut", g);
        let (rty, amp) = if fi.copy { (quote! { #ty }, quote! {}) } else { (quote! { &#ty }, quote! { & }) };
        let rrty = if fi.copy { quote! { #ty } } else { quote! { &'__superstruct #ty } };
        if fi.only.is_none() {
            en.extend(quote! { pub fn #g(&self) -> #rty { match self { #( Self::#variants(x) => #amp x.#fname ),* } } });
            rf.extend(quote! { pub fn #g(&self) -> #rrty { match self { #( Self::#variants(x) => #amp x.#fname ),* } } });
            if !fi.no_mut {
                en.extend(quote! { pub fn #gm(&mut self) -> &mut #ty { match self { #( Self::#variants(x) => &mut x.#fname ),* } } });
                rm.extend(quote! { pub fn #gm(&mut self) -> &mut #ty { match self { #( Self::#variants(x) => &mut x.#fname ),* } } });
            }
        } else {
            let arms: Vec<_> = variants.iter().map(|v| if has(fi, v) { quote! { Self::#v(x) => Ok(#amp x.#fname) } } else { quote! { Self::#v(_) => Err(()) } }).collect();
            let marms: Vec<_> = variants.iter().map(|v| if has(fi, v) { quote! { Self::#v(x) => Ok(&mut x.#fname) } } else { quote! { Self::#v(_) => Err(()) } }).collect();
            en.extend(quote! { pub fn #g(&self) -> Result<#rty, ()> { match self { #( #arms ),* } } });
            rf.extend(quote! { pub fn #g(&self) -> Result<#rrty, ()> { match self { #( #arms ),* } } });
            if !fi.no_mut {
                en.extend(quote! { pub fn #gm(&mut self) -> Result<&mut #ty, ()> { match self { #( #marms ),* } } });
                rm.extend(quote! { pub fn #gm(&mut self) -> Result<&mut #ty, ()> { match self { #( #marms ),* } } });
            }
        }
    }
    for (v, vn) in variants.iter().zip(&vnames) {
        let a = format_ident!("as_{}", snake(&v.to_string()));
        let am = format_ident!("as_{}_mut", snake(&v.to_string()));
        en.extend(quote! {
            #[allow(unreachable_patterns)]
            pub fn #a(&self) -> Result<&#vn #tg, ()> { match self { Self::#v(x) => Ok(x), _ => Err(()) } }
            #[allow(unreachable_patterns)]
            pub fn #am(&mut self) -> Result<&mut #vn #tg, ()> { match self { Self::#v(x) => Ok(x), _ => Err(()) } }
        });
    }
    out.extend(quote! {
        #[allow(clippy::all, dead_code)]
        impl #ig #name #tg #wc {
            pub fn to_ref(&self) -> #refn { match self { #( Self::#variants(x) => #refn::#variants(x) ),* } }
            pub fn to_mut(&mut self) -> #refmutn { match self { #( Self::#variants(x) => #refmutn::#variants(x) ),* } }
            #en
        }
        #[allow(clippy::all, dead_code)]
        impl #rig #refn #rtg #rwc { #rf }
        #[allow(clippy::all, dead_code)]
        impl #rig #refmutn #rtg #rwc { #rm }
    });
    out.into()
}
