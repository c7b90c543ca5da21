//! Stands in for the crate of the same name, which is not installed here. Methods taking references with
//! elided lifetimes become methods returning a boxed future; nothing more is needed by the code compiled with it.

use proc_macro::TokenStream;
use quote::{quote, ToTokens};
use syn::{parse_quote, Block, FnArg, ImplItem, Item, ReturnType, Signature, TraitItem, Type};

fn boxed(sig: &mut Signature, body: Option<&mut Block>) {
    if sig.asyncness.take().is_none() {
        return;
    }
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if let Some((_, l)) = r.reference.as_mut() {
                    l.get_or_insert(parse_quote!('life));
                }
            }
            FnArg::Typed(t) => {
                if let Type::Reference(t) = &mut *t.ty {
                    t.lifetime.get_or_insert(parse_quote!('life));
                }
            }
        }
    }
    let out: Type = match &sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    sig.generics.params.insert(0, parse_quote!('life));
    sig.generics.make_where_clause().predicates.push(parse_quote!(Self: 'life));
    sig.output = parse_quote!(-> ::core::pin::Pin<Box<dyn ::core::future::Future<Output = #out> + Send + 'life>>);
    if let Some(b) = body {
        let stmts = &b.stmts;
        let new: Block = parse_quote!({
            Box::pin(async move {
                if let Some(r) = None::<#out> {
                    return r;
                }
                let r: #out = { #(#stmts)* };
                #[allow(unreachable_code)]
                r
            })
        });
        *b = new;
    }
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut item = syn::parse_macro_input!(item as Item);
    match &mut item {
        Item::Trait(t) => {
            for i in t.items.iter_mut() {
                if let TraitItem::Method(m) = i {
                    boxed(&mut m.sig, m.default.as_mut());
                }
            }
        }
        Item::Impl(t) => {
            for i in t.items.iter_mut() {
                if let ImplItem::Method(m) = i {
                    boxed(&mut m.sig, Some(&mut m.block));
                }
            }
        }
        _ => {}
    }
    let t = item.into_token_stream();
    quote!(#t).into()
}
