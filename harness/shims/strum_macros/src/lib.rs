use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr};

struct O {
    all: Option<String>,
    ascii_ci: bool,
}
fn words(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    for (i, c) in cs.iter().enumerate() {
        if *c == '_' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            continue;
        }
        let boundary = c.is_uppercase()
            && !cur.is_empty()
            && (cs[i - 1].is_lowercase() || cs[i - 1].is_ascii_digit() || (i + 1 < cs.len() && cs[i + 1].is_lowercase()));
        if boundary {
            out.push(std::mem::take(&mut cur));
        }
        cur.push(*c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out.into_iter().map(|w| w.to_lowercase()).collect()
}
fn cap(w: &str) -> String {
    let mut c = w.chars();
    c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
}
fn style(n: &str, st: &Option<String>) -> String {
    let w = words(n);
    match st.as_deref() {
        None => n.to_string(),
        Some("snake_case") => w.join("_"),
        Some("kebab-case") | Some("kebab_case") => w.join("-"),
        Some("lowercase") => n.to_lowercase(),
        Some("UPPERCASE") => n.to_uppercase(),
        Some("SCREAMING_SNAKE_CASE") => w.join("_").to_uppercase(),
        Some("PascalCase") => w.iter().map(|x| cap(x)).collect(),
        Some("title_case") => w.iter().map(|x| cap(x)).collect::<Vec<_>>().join(" "),
        Some(x) => panic!("strum case {x}"),
    }
}
fn names(d: &DeriveInput) -> (O, Vec<(syn::Variant, Vec<String>, String)>) {
    let mut o = O { all: None, ascii_ci: false };
    for a in d.attrs.iter().filter(|a| a.path().is_ident("strum")) {
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("serialize_all") {
                o.all = Some(m.value()?.parse::<LitStr>()?.value());
            } else if m.path.is_ident("ascii_case_insensitive") {
                o.ascii_ci = true;
            }
            Ok(())
        });
    }
    let Data::Enum(e) = &d.data else { panic!("enum") };
    let v = e
        .variants
        .iter()
        .map(|v| {
            let (mut ser, mut to) = (vec![], None);
            for a in v.attrs.iter().filter(|a| a.path().is_ident("strum")) {
                let _ = a.parse_nested_meta(|m| {
                    if m.path.is_ident("serialize") {
                        ser.push(m.value()?.parse::<LitStr>()?.value());
                    } else if m.path.is_ident("to_string") {
                        to = Some(m.value()?.parse::<LitStr>()?.value());
                    }
                    Ok(())
                });
            }
            let shown = to.clone().unwrap_or_else(|| {
                ser.iter().max_by_key(|s| s.len()).cloned().unwrap_or_else(|| style(&v.ident.to_string(), &o.all))
            });
            if let Some(t) = to {
                ser.push(t);
            }
            if ser.is_empty() {
                ser.push(shown.clone());
            }
            (v.clone(), ser, shown)
        })
        .collect();
    (o, v)
}
fn pat(v: &syn::Variant) -> proc_macro2::TokenStream {
    let i = &v.ident;
    match v.fields {
        syn::Fields::Unit => quote! { Self::#i },
        syn::Fields::Named(_) => quote! { Self::#i { .. } },
        syn::Fields::Unnamed(_) => quote! { Self::#i(..) },
    }
}
fn make(v: &syn::Variant) -> proc_macro2::TokenStream {
    let i = &v.ident;
    match &v.fields {
        syn::Fields::Unit => quote! { Self::#i },
        syn::Fields::Named(f) => {
            let n = f.named.iter().map(|f| &f.ident);
            quote! { Self::#i { #( #n: Default::default() ),* } }
        }
        syn::Fields::Unnamed(f) => {
            let n = f.unnamed.iter().map(|_| quote! { Default::default() });
            quote! { Self::#i( #( #n ),* ) }
        }
    }
}
#[proc_macro_derive(Display, attributes(strum))]
pub fn display(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (_, v) = names(&d);
    let n = &d.ident;
    let arms = v.iter().map(|(v, _, s)| { let p = pat(v); quote! { #p => #s } });
    quote! { impl ::core::fmt::Display for #n { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
        ::core::fmt::Display::fmt(match self { #( #arms ),* }, f) } } }.into()
}
#[proc_macro_derive(AsRefStr, attributes(strum))]
pub fn asref(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (_, v) = names(&d);
    let n = &d.ident;
    let arms = v.iter().map(|(v, _, s)| { let p = pat(v); quote! { #p => #s } });
    quote! { impl ::core::convert::AsRef<str> for #n { fn as_ref(&self) -> &str { match self { #( #arms ),* } } } }.into()
}
#[proc_macro_derive(EnumString, attributes(strum))]
pub fn enum_string(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (o, v) = names(&d);
    let n = &d.ident;
    let conds = v.iter().map(|(v, ser, _)| {
        let m = make(v);
        if o.ascii_ci { quote! { if false #( || s.eq_ignore_ascii_case(#ser) )* { return Ok(#m); } } }
        else { quote! { if false #( || s == #ser )* { return Ok(#m); } } }
    });
    quote! {
        impl ::core::str::FromStr for #n { type Err = ::strum::ParseError;
            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> { #( #conds )* Err(::strum::ParseError::VariantNotFound) } }
        impl ::core::convert::TryFrom<&str> for #n { type Error = ::strum::ParseError;
            fn try_from(s: &str) -> ::core::result::Result<Self, Self::Error> { ::core::str::FromStr::from_str(s) } }
    }.into()
}
#[proc_macro_derive(EnumIter, attributes(strum))]
pub fn enum_iter(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (_, v) = names(&d);
    let n = &d.ident;
    let ms = v.iter().map(|(v, _, _)| make(v));
    quote! { impl ::strum::IntoEnumIterator for #n { type Iterator = ::std::vec::IntoIter<#n>;
        fn iter() -> Self::Iterator { ::std::vec![ #( #ms ),* ].into_iter() } } }.into()
}
#[proc_macro_derive(VariantNames, attributes(strum))]
pub fn variant_names(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (_, v) = names(&d);
    let n = &d.ident;
    let ms = v.iter().map(|(_, _, s)| s);
    quote! { impl ::strum::VariantNames for #n { const VARIANTS: &'static [&'static str] = &[ #( #ms ),* ]; } }.into()
}
#[proc_macro_derive(IntoStaticStr, attributes(strum))]
pub fn into_static(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (_, v) = names(&d);
    let n = &d.ident;
    let arms: Vec<_> = v.iter().map(|(v, _, s)| { let p = pat(v); let t = p.to_string().replacen("Self", &n.to_string(), 1); let p: proc_macro2::TokenStream = t.parse().unwrap(); quote! { #p => #s } }).collect();
    quote! { impl From<#n> for &'static str { fn from(x: #n) -> &'static str { match x { #( #arms ),* } } }
             impl<'a> From<&'a #n> for &'static str { fn from(x: &'a #n) -> &'static str { match x { #( #arms ),* } } } }.into()
}
