use proc_macro::TokenStream;
use quote::quote;
#[proc_macro_derive(Validate, attributes(validate))]
pub fn derive(i: TokenStream) -> TokenStream {
    let d = syn::parse_macro_input!(i as syn::DeriveInput);
    let n = &d.ident;
    let mut body = quote! {};
    if let syn::Data::Struct(s) = &d.data {
        for f in &s.fields {
            let id = f.ident.as_ref().unwrap();
            let ids = id.to_string();
            for a in f.attrs.iter().filter(|a| a.path().is_ident("validate")) {
                let mut func: Option<syn::Path> = None;
                a.parse_nested_meta(|m| {
                    if m.path.is_ident("custom") {
                        m.parse_nested_meta(|c| {
                            func = Some(c.value()?.parse::<syn::LitStr>()?.parse()?);
                            Ok(())
                        })?;
                    }
                    Ok(())
                })
                .unwrap();
                if let Some(func) = func {
                    body.extend(quote! { if let Err(e) = #func(&self.#id) { errs.add(#ids, e); } });
                }
            }
        }
    }
    quote! { impl validator::Validate for #n { fn validate(&self) -> Result<(), validator::ValidationErrors> {
        let mut errs = validator::ValidationErrors::new(); #body
        if errs.is_empty() { Ok(()) } else { Err(errs) } } } }.into()
}
