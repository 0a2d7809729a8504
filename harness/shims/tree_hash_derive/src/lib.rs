use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, LitStr, Member};

fn attrs(attrs: &[syn::Attribute]) -> (Option<String>, Option<String>, bool) {
    let (mut e, mut s, mut skip) = (None, None, false);
    for a in attrs.iter().filter(|a| a.path().is_ident("tree_hash")) {
        a.parse_nested_meta(|m| {
            let n = m.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match n.as_str() {
                "enum_behaviour" => e = Some(m.value()?.parse::<LitStr>()?.value()),
                "struct_behaviour" => s = Some(m.value()?.parse::<LitStr>()?.value()),
                "skip_hashing" => skip = true,
                x => panic!("unsupported tree_hash attribute {x}"),
            }
            Ok(())
        })
        .unwrap();
    }
    (e, s, skip)
}

#[proc_macro_derive(TreeHash, attributes(tree_hash))]
pub fn derive(i: TokenStream) -> TokenStream {
    let d = parse_macro_input!(i as DeriveInput);
    let (ig, tg, wc) = d.generics.split_for_impl();
    let n = &d.ident;
    let (eb, sb, _) = attrs(&d.attrs);
    let body = match &d.data {
        Data::Struct(s) => {
            let fs: Vec<(Member, syn::Type)> = s
                .fields
                .iter()
                .enumerate()
                .filter(|(_, f)| !attrs(&f.attrs).2)
                .map(|(i, f)| (f.ident.clone().map(Member::Named).unwrap_or(Member::from(i)), f.ty.clone()))
                .collect();
            if sb.as_deref() == Some("transparent") {
                let (m, t) = &fs[0];
                quote! {
                    fn tree_hash_type() -> tree_hash::TreeHashType { <#t as tree_hash::TreeHash>::tree_hash_type() }
                    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding { self.#m.tree_hash_packed_encoding() }
                    fn tree_hash_packing_factor() -> usize { <#t as tree_hash::TreeHash>::tree_hash_packing_factor() }
                    fn tree_hash_root(&self) -> tree_hash::Hash256 { tree_hash::TreeHash::tree_hash_root(&self.#m) }
                }
            } else {
                let ms = fs.iter().map(|f| &f.0);
                let len = fs.len();
                quote! {
                    fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Container }
                    fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding { unreachable!("Struct should never be packed.") }
                    fn tree_hash_packing_factor() -> usize { unreachable!("Struct should never be packed.") }
                    fn tree_hash_root(&self) -> tree_hash::Hash256 {
                        let mut hasher = tree_hash::MerkleHasher::with_leaves(#len);
                        #( hasher.write(tree_hash::TreeHash::tree_hash_root(&self.#ms).as_slice()).expect("derived leaves"); )*
                        hasher.finish().expect("derived finish")
                    }
                }
            }
        }
        Data::Enum(e) => {
            let vs: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
            let root = match eb.as_deref() {
                Some("transparent") => quote! { match self { #( Self::#vs(x) => tree_hash::TreeHash::tree_hash_root(x) ),* } },
                Some("union") => {
                    let idx: Vec<u8> = (0..vs.len() as u8).collect();
                    quote! { match self { #( Self::#vs(x) => tree_hash::mix_in_selector(&tree_hash::TreeHash::tree_hash_root(x), #idx).unwrap() ),* } }
                }
                x => panic!("enum_behaviour {x:?}"),
            };
            quote! {
                fn tree_hash_type() -> tree_hash::TreeHashType { tree_hash::TreeHashType::Container }
                fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding { unreachable!("Enum should never be packed") }
                fn tree_hash_packing_factor() -> usize { unreachable!("Enum should never be packed") }
                fn tree_hash_root(&self) -> tree_hash::Hash256 { #root }
            }
        }
        _ => panic!("unsupported"),
    };
    quote! { impl #ig tree_hash::TreeHash for #n #tg #wc { #body } }.into()
}
