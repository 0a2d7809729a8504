//! `#[rpc]`: keeps the server trait, drops the transport.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
#[proc_macro_attribute]
pub fn rpc(args: TokenStream, input: TokenStream) -> TokenStream {
    let args = args.to_string();
    let mut t = syn::parse_macro_input!(input as syn::ItemTrait);
    let name = t.ident.clone();
    let vis = t.vis.clone();
    for i in &mut t.items {
        if let syn::TraitItem::Fn(f) = i {
            f.attrs.retain(|a| !a.path().is_ident("method") && !a.path().is_ident("subscription") && !a.path().is_ident("argument"));
        }
    }
    let mut out = quote! {};
    if args.contains("server") {
        let mut s = t.clone();
        s.ident = format_ident!("{}Server", name);
        s.supertraits = syn::parse_quote!(Sized + Send + Sync + 'static);
        s.colon_token = Some(Default::default());
        s.items.push(syn::parse_quote! { fn into_rpc(self) -> ::jsonrpsee::RpcModule<Self> { ::jsonrpsee::RpcModule::new(self) } });
        out.extend(quote! { #[::jsonrpsee::core::async_trait] #s });
    }
    if args.contains("client") {
        let c = format_ident!("{}Client", name);
        out.extend(quote! { #[allow(dead_code)] #vis trait #c {} });
    }
    out.into()
}
