//! `#[async_trait]`: rewrites async trait methods into boxed futures.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, visit_mut::VisitMut, FnArg, ImplItem, Item, ReturnType, Signature, TraitItem};

struct Lifetimes(usize, Vec<syn::Lifetime>);
impl VisitMut for Lifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut syn::TypeReference) {
        if t.lifetime.is_none() {
            let l = syn::Lifetime::new(&format!("'life{}", self.0), proc_macro2::Span::call_site());
            self.0 += 1;
            t.lifetime = Some(l.clone());
            self.1.push(l);
        }
        syn::visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        if l.ident == "_" {
            *l = syn::Lifetime::new(&format!("'life{}", self.0), proc_macro2::Span::call_site());
            self.0 += 1;
            self.1.push(l.clone());
        }
    }
}
fn rewrite(sig: &mut Signature, send: bool) -> proc_macro2::TokenStream {
    sig.asyncness = None;
    let ret = match &sig.output {
        ReturnType::Default => quote! { () },
        ReturnType::Type(_, t) => quote! { #t },
    };
    let mut lt = Lifetimes(0, vec![]);
    let mut binds = quote! {};
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = &mut r.reference {
                    if l.is_none() {
                        let n = syn::Lifetime::new("'life_self", proc_macro2::Span::call_site());
                        *l = Some(n.clone());
                        lt.1.push(n.clone());
                        let m = &r.mutability;
                        r.ty = Box::new(parse_quote!(&#n #m Self));
                    }
                }
            }
            FnArg::Typed(t) => {
                lt.visit_type_mut(&mut t.ty);
                if !matches!(*t.pat, syn::Pat::Ident(_)) {
                    let p = t.pat.clone();
                    let id = quote::format_ident!("__arg{}", i);
                    binds.extend(quote! { let #p = #id; });
                    t.pat = parse_quote!(#id);
                } else if let syn::Pat::Ident(p) = &mut *t.pat {
                    if p.mutability.is_some() {
                        let id = p.ident.clone();
                        binds.extend(quote! { let mut #id = #id; });
                        p.mutability = None;
                    } else {
                        let id = p.ident.clone();
                        binds.extend(quote! { let #id = #id; });
                    }
                }
            }
        }
    }
    let has_self = sig.receiver().is_some();
    let user_lts: Vec<syn::Lifetime> = sig.generics.lifetimes().map(|l| l.lifetime.clone()).collect();
    let tps: Vec<_> = sig.generics.type_params().map(|t| t.ident.clone()).collect();
    for l in &lt.1 {
        sig.generics.params.insert(0, parse_quote!(#l));
    }
    sig.generics.params.insert(0, parse_quote!('async_trait));
    let wc = sig.generics.make_where_clause();
    for l in lt.1.iter().chain(&user_lts) {
        wc.predicates.push(parse_quote!(#l: 'async_trait));
    }
    for t in tps {
        wc.predicates.push(parse_quote!(#t: 'async_trait));
    }
    if has_self {
        wc.predicates.push(parse_quote!(Self: 'async_trait));
    }
    let s = if send { quote! { + ::core::marker::Send } } else { quote! {} };
    sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #ret> #s + 'async_trait>>);
    binds
}
#[proc_macro_attribute]
pub fn async_trait(args: TokenStream, input: TokenStream) -> TokenStream {
    let send = !args.to_string().contains("Send");
    let mut item = parse_macro_input!(input as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in &mut t.items {
                if let TraitItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        let b = rewrite(&mut f.sig, send);
                        if let Some(body) = &mut f.default {
                            if let Some(rt) = ret_ty(&f.sig) {
                                *body = parse_quote!({ Box::pin(async move { #b let __ret: #rt = #body; #[allow(unreachable_code)] __ret }) });
                            }
                        }
                        f.attrs.push(parse_quote!(#[allow(clippy::all)]));
                    }
                }
            }
        }
        Item::Impl(t) => {
            for i in &mut t.items {
                if let ImplItem::Fn(f) = i {
                    if f.sig.asyncness.is_some() {
                        let b = rewrite(&mut f.sig, send);
                        let body = &f.block;
                        if let Some(rt) = ret_ty(&f.sig) {
                            f.block = parse_quote!({ Box::pin(async move { #b let __ret: #rt = #body; #[allow(unreachable_code)] __ret }) });
                        }
                        f.attrs.push(parse_quote!(#[allow(clippy::all)]));
                    }
                }
            }
        }
        _ => panic!("async_trait on trait or impl"),
    }
    quote! { #item }.into()
}
/// Output type inside the boxed future.
fn ret_ty(sig: &Signature) -> Option<proc_macro2::TokenStream> {
    let ReturnType::Type(_, t) = &sig.output else { return None };
    struct F(Option<proc_macro2::TokenStream>);
    impl VisitMut for F {
        fn visit_assoc_type_mut(&mut self, a: &mut syn::AssocType) {
            if a.ident == "Output" && self.0.is_none() {
                let t = &a.ty;
                self.0 = Some(quote! { #t });
            }
        }
    }
    let mut f = F(None);
    f.visit_type_mut(&mut t.clone());
    f.0
}
