use proc_macro::TokenStream;
use quote::quote;
/// Reads assets from the crate's source tree at run time.
#[proc_macro_derive(RustEmbed, attributes(folder, prefix))]
pub fn derive(input: TokenStream) -> TokenStream {
    let file = proc_macro::Span::call_site().local_file().expect("source file");
    let d = syn::parse_macro_input!(input as syn::DeriveInput);
    let attr = |n: &str| {
        d.attrs.iter().find(|a| a.path().is_ident(n)).map(|a| {
            let syn::Meta::NameValue(nv) = &a.meta else { panic!("bad attribute") };
            let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value else { panic!("bad attribute") };
            s.value()
        })
    };
    let mut root = file.canonicalize().unwrap_or(file);
    while root.file_name().is_some_and(|n| n != "src") {
        root.pop();
    }
    root.pop();
    let folder = root.join(attr("folder").expect("folder")).to_string_lossy().into_owned();
    let prefix = attr("prefix").unwrap_or_default();
    let name = &d.ident;
    quote! {
        impl #name {
            pub fn get(path: &str) -> ::std::option::Option<::rust_embed::EmbeddedFile> {
                let p = path.strip_prefix(#prefix)?;
                ::std::fs::read(::std::path::Path::new(#folder).join(p)).ok().map(|d| ::rust_embed::EmbeddedFile { data: d.into() })
            }
        }
    }
    .into()
}
