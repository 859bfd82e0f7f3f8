use proc_macro::TokenStream;
use proc_macro2::{Span, TokenStream as TokenStream2};
use quote::{format_ident, quote};
use syn::{
    parse::{Parse, ParseStream},
    parse_macro_input,
    punctuated::Punctuated,
    visit_mut::VisitMut,
    *,
};

#[derive(Default)]
struct Opts {
    debug: bool,
    no_lifetime: bool,
    no_eq: bool,
    returns: Option<String>,
}

impl Parse for Opts {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut o = Opts::default();
        let metas: Punctuated<Meta, Token![,]> =
            Punctuated::parse_terminated_with(input, parse_meta)?;
        for m in metas {
            let name = m.path().get_ident().map(|i| i.to_string()).unwrap_or_default();
            match (name.as_str(), &m) {
                ("debug", _) => o.debug = true,
                ("no_lifetime", _) => o.no_lifetime = true,
                ("no_eq", _) => o.no_eq = true,
                ("returns", Meta::List(l)) => o.returns = Some(l.tokens.to_string()),
                _ => {}
            }
        }
        Ok(o)
    }
}

fn parse_meta(input: ParseStream) -> Result<Meta> {
    // `returns(ref)`: `ref` is a keyword, which syn's Meta::List accepts as tokens
    input.parse()
}

struct ToStatic;
impl VisitMut for ToStatic {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) {
        *l = Lifetime::new("'static", l.span());
    }
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        if r.lifetime.is_none() {
            r.lifetime = Some(Lifetime::new("'static", Span::call_site()));
        }
        visit_mut::visit_type_reference_mut(self, r);
    }
}
fn to_static(t: &Type) -> Type {
    let mut t = t.clone();
    ToStatic.visit_type_mut(&mut t);
    t
}

fn project(mode: Option<&str>, expr: TokenStream2, ty: &Type, lt: TokenStream2) -> (TokenStream2, TokenStream2) {
    match mode {
        None | Some("clone") => (quote!(#ty), quote!(::core::clone::Clone::clone(#expr))),
        Some("copy") => (quote!(#ty), quote!(*#expr)),
        Some("ref") => (quote!(&#lt #ty), quote!(#expr)),
        Some("deref") => (
            quote!(&#lt <#ty as ::core::ops::Deref>::Target),
            quote!(::core::ops::Deref::deref(#expr)),
        ),
        Some("as_ref") => (quote!(_), quote!(#expr.as_ref())),
        Some("as_deref") => (quote!(_), quote!(#expr.as_deref())),
        Some(other) => panic!("unsupported returns({other})"),
    }
}

// ------------------------------------------------------------------------------------ db

#[proc_macro_attribute]
pub fn db(_args: TokenStream, input: TokenStream) -> TokenStream {
    let item = parse_macro_input!(input as Item);
    match item {
        Item::Struct(s) => {
            let name = &s.ident;
            let field = s
                .fields
                .iter()
                .find(|f| {
                    f.ident.as_ref().is_some_and(|i| i == "storage")
                        || quote!(#f).to_string().contains("Storage")
                })
                .expect("#[db] struct needs a storage field");
            let f = &field.ident;
            quote! {
                #s
                impl ::salsa::plumbing::HasStorage for #name {
                    fn storage(&self) -> &::salsa::Storage<Self> { &self.#f }
                    fn storage_mut(&mut self) -> &mut ::salsa::Storage<Self> { &mut self.#f }
                }
            }
            .into()
        }
        Item::Trait(mut t) => {
            t.items.push(parse_quote! {
                #[doc(hidden)]
                fn __salsa_register_view(&self);
            });
            quote!(#t).into()
        }
        Item::Impl(mut i) => {
            let (_, tr, _) = i.trait_.clone().expect("#[db] impl of a trait");
            let last = tr.segments.last().unwrap().ident.to_string();
            let self_ty = i.self_ty.clone();
            if last != "Database" {
                i.items.push(parse_quote! {
                    fn __salsa_register_view(&self) {
                        unsafe fn cast(p: *const ()) -> *const (dyn #tr + 'static) {
                            p as *const #self_ty as *const (dyn #tr + 'static)
                        }
                        ::salsa::plumbing::register_view::<#self_ty, dyn #tr>(self, cast);
                    }
                });
            }
            quote!(#i).into()
        }
        other => Error::new_spanned(other, "#[db] is for structs, traits and impls").to_compile_error().into(),
    }
}

// ------------------------------------------------------------------------------------ structs

struct FieldInfo {
    name: Ident,
    ty: Type,
    vis: Visibility,
    returns: Option<String>,
    default: bool,
}

fn field_infos(s: &ItemStruct) -> Vec<FieldInfo> {
    s.fields
        .iter()
        .map(|f| {
            let mut returns = None;
            let mut default = false;
            for a in &f.attrs {
                if a.path().is_ident("returns") {
                    if let Meta::List(l) = &a.meta {
                        returns = Some(l.tokens.to_string());
                    }
                } else if a.path().is_ident("return_ref") {
                    returns = Some("ref".to_string());
                } else if a.path().is_ident("default") {
                    default = true;
                }
            }
            FieldInfo {
                name: f.ident.clone().expect("named fields"),
                ty: f.ty.clone(),
                vis: f.vis.clone(),
                returns,
                default,
            }
        })
        .collect()
}

fn kept_attrs(s: &ItemStruct) -> Vec<Attribute> {
    s.attrs.iter().cloned().collect()
}

#[proc_macro_attribute]
pub fn input(args: TokenStream, input: TokenStream) -> TokenStream {
    let opts = parse_macro_input!(args as Opts);
    let s = parse_macro_input!(input as ItemStruct);
    let name = &s.ident;
    let vis = &s.vis;
    let attrs = kept_attrs(&s);
    let fields = field_infos(&s);
    let n = fields.len();
    let builder = format_ident!("{}Builder", name);
    let module = format_ident!("__salsa_input_{}", name);
    let names: Vec<_> = fields.iter().map(|f| &f.name).collect();
    let tys: Vec<_> = fields.iter().map(|f| &f.ty).collect();
    let name_str = name.to_string();
    let req: Vec<_> = fields.iter().filter(|f| !f.default).collect();
    let req_names: Vec<_> = req.iter().map(|f| &f.name).collect();
    let req_tys: Vec<_> = req.iter().map(|f| &f.ty).collect();
    let inits: Vec<_> = fields
        .iter()
        .map(|f| {
            let n = &f.name;
            if f.default { quote!(::core::default::Default::default()) } else { quote!(#n) }
        })
        .collect();

    let mut methods = vec![];
    let mut builder_methods = vec![];
    for (i, f) in fields.iter().enumerate() {
        let idx = Index::from(i);
        let (fname, fty, fvis) = (&f.name, &f.ty, &f.vis);
        let (ret, expr) =
            project(f.returns.as_deref(), quote!(&__fields.#idx), fty, quote!('__db));
        let setter = format_ident!("set_{}", fname);
        let dur = format_ident!("{}_durability", fname);
        let expr = if f.returns.as_deref() == Some("ref") { quote!(&__fields.#idx) } else { quote!(#expr) };
        methods.push(quote! {
            #fvis fn #fname<'__db, __Db: ?Sized + ::salsa::Database>(self, db: &'__db __Db) -> #ret {
                let __fields = ::salsa::plumbing::input_fields::<#module::Config>(
                    ::salsa::plumbing::ZalsaDatabase::__zalsa(db), self.0, #i);
                #expr
            }
            #[must_use]
            #fvis fn #setter<'__db, __Db: ?Sized + ::salsa::Database>(self, db: &'__db mut __Db)
                -> impl ::salsa::Setter<FieldTy = #fty> + '__db
            {
                ::salsa::plumbing::FieldSetter::<'__db, #module::Config, #fty, _> {
                    zalsa: ::salsa::plumbing::ZalsaDatabase::__zalsa_mut(db),
                    id: self.0,
                    field: #i,
                    durability: ::core::option::Option::None,
                    set: |__f: &mut ( #(#tys,)* ), __v: #fty| ::core::mem::replace(&mut __f.#idx, __v),
                    _p: ::core::marker::PhantomData,
                }
            }
        });
        builder_methods.push(quote! {
            #fvis fn #dur(mut self, d: ::salsa::Durability) -> Self { self.durabilities[#i] = d; self }
        });
        if f.default {
            builder_methods.push(quote! {
                #fvis fn #fname(mut self, v: #fty) -> Self { self.fields.#idx = v; self }
            });
        }
    }
    let debug = if opts.debug {
        quote! {
            impl ::core::fmt::Debug for #name {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                    f.debug_struct(#name_str).field("[salsa id]", &self.0).finish()
                }
            }
        }
    } else {
        quote!()
    };
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #vis struct #name(::salsa::Id);
        #[allow(non_snake_case, unused_imports)]
        mod #module {
            use super::*;
            pub struct Config;
            impl ::salsa::plumbing::InputConfig for Config {
                type Fields = ( #(#tys,)* );
                const N: usize = #n;
                const NAME: &'static str = #name_str;
                fn index() -> &'static ::salsa::plumbing::IngredientIndex {
                    static I: ::salsa::plumbing::IngredientIndex = ::salsa::plumbing::IngredientIndex::new();
                    &I
                }
            }
        }
        #debug
        #[allow(dead_code)]
        impl #name {
            pub fn new<__Db: ?Sized + ::salsa::Database>(db: &__Db, #(#req_names: #req_tys),*) -> Self {
                Self::builder(#(#req_names),*).new(db)
            }
            pub fn builder(#(#req_names: #req_tys),*) -> #builder {
                #builder {
                    fields: ( #(#inits,)* ),
                    durabilities: [::salsa::Durability::LOW; #n],
                }
            }
            #(#methods)*
        }
        impl ::salsa::plumbing::AsId for #name {
            fn as_id(&self) -> ::salsa::Id { self.0 }
        }
        impl ::salsa::plumbing::FromId for #name {
            fn from_id(id: ::salsa::Id) -> Self { Self(id) }
        }
        #[must_use]
        #vis struct #builder {
            fields: ( #(#tys,)* ),
            durabilities: [::salsa::Durability; #n],
        }
        #[allow(dead_code)]
        impl #builder {
            pub fn durability(mut self, d: ::salsa::Durability) -> Self {
                self.durabilities = [d; #n];
                self
            }
            #(#builder_methods)*
            pub fn new<__Db: ?Sized + ::salsa::Database>(self, db: &__Db) -> #name {
                #name(::salsa::plumbing::input_new::<#module::Config>(
                    ::salsa::plumbing::ZalsaDatabase::__zalsa(db), self.fields, &self.durabilities))
            }
        }
        const _: () = { let _ = (#(stringify!(#names)),*); };
    }
    .into()
}

#[proc_macro_attribute]
pub fn interned(args: TokenStream, input: TokenStream) -> TokenStream {
    let opts = parse_macro_input!(args as Opts);
    let s = parse_macro_input!(input as ItemStruct);
    let name = &s.ident;
    let vis = &s.vis;
    let attrs = kept_attrs(&s);
    let fields = field_infos(&s);
    let module = format_ident!("__salsa_interned_{}", name);
    let names: Vec<_> = fields.iter().map(|f| &f.name).collect();
    let tys: Vec<_> = fields.iter().map(|f| &f.ty).collect();
    let stys: Vec<_> = tys.iter().map(|t| to_static(t)).collect();
    let name_str = name.to_string();
    let has_lt = !opts.no_lifetime;
    let lt = s
        .generics
        .lifetimes()
        .next()
        .map(|l| l.lifetime.clone())
        .unwrap_or_else(|| Lifetime::new("'db", Span::call_site()));
    let (decl, generics, ty, fresh) = if has_lt {
        (
            quote!(#vis struct #name<#lt>(::salsa::Id, ::core::marker::PhantomData<fn() -> &#lt ()>);),
            quote!(<#lt>),
            quote!(#name<#lt>),
            quote!((id, ::core::marker::PhantomData)),
        )
    } else {
        (quote!(#vis struct #name(::salsa::Id);), quote!(), quote!(#name), quote!((id)))
    };
    let db_lt = if has_lt { quote!(#lt) } else { quote!('__db) };
    let extra_lt = if has_lt { quote!() } else { quote!('__db,) };
    let mut methods = vec![];
    for (i, f) in fields.iter().enumerate() {
        let idx = Index::from(i);
        let (fname, fty, fvis) = (&f.name, &f.ty, &f.vis);
        let (ret, expr) = project(f.returns.as_deref(), quote!(&__fields.#idx), fty, db_lt.clone());
        methods.push(quote! {
            #fvis fn #fname<#extra_lt __Db: ?Sized + ::salsa::Database>(self, db: &#db_lt __Db) -> #ret {
                let __fields = ::salsa::plumbing::interned_fields::<#module::Config>(
                    ::salsa::plumbing::ZalsaDatabase::__zalsa(db), self.0);
                #expr
            }
        });
    }
    let debug = if opts.debug {
        let fstrs: Vec<_> = names.iter().map(|n| n.to_string()).collect();
        let idxs = (0..fields.len()).map(Index::from);
        quote! {
            impl #generics ::core::fmt::Debug for #ty {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                    let id = self.0;
                    ::salsa::with_attached_database(|db| {
                        let v = ::salsa::plumbing::interned_fields::<#module::Config>(
                            ::salsa::plumbing::ZalsaDatabase::__zalsa(db), id);
                        f.debug_struct(#name_str).field("[salsa id]", &id)#(.field(#fstrs, &v.#idxs))*.finish()
                    })
                    .unwrap_or_else(|| f.debug_tuple(#name_str).field(&id).finish())
                }
            }
        }
    } else {
        quote!()
    };
    quote! {
        #(#attrs)*
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
        #decl
        #[allow(non_snake_case, unused_imports)]
        mod #module {
            use super::*;
            pub struct Config;
            impl ::salsa::plumbing::InternedConfig for Config {
                type Fields = ( #(#stys,)* );
                fn index() -> &'static ::salsa::plumbing::IngredientIndex {
                    static I: ::salsa::plumbing::IngredientIndex = ::salsa::plumbing::IngredientIndex::new();
                    &I
                }
            }
        }
        #debug
        #[allow(dead_code)]
        impl #generics #ty {
            pub fn new<#extra_lt __Db: ?Sized + ::salsa::Database>(db: &#db_lt __Db, #(#names: #tys),*) -> Self {
                #(let #names: #stys = unsafe { ::salsa::plumbing::erase::<#tys, #stys>(#names) };)*
                let id = ::salsa::plumbing::interned_new::<#module::Config>(
                    ::salsa::plumbing::ZalsaDatabase::__zalsa(db), ( #(#names,)* ));
                Self #fresh
            }
            #(#methods)*
        }
        impl #generics ::salsa::plumbing::AsId for #ty {
            fn as_id(&self) -> ::salsa::Id { self.0 }
        }
        impl #generics ::salsa::plumbing::FromId for #ty {
            fn from_id(id: ::salsa::Id) -> Self { Self #fresh }
        }
    }
    .into()
}

// ------------------------------------------------------------------------------------ functions

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, input: TokenStream) -> TokenStream {
    let opts = parse_macro_input!(args as Opts);
    let f = parse_macro_input!(input as ItemFn);
    let name = &f.sig.ident;
    let name_str = name.to_string();
    let vis = &f.vis;
    let attrs = &f.attrs;
    let mut args = f.sig.inputs.iter();
    let Some(FnArg::Typed(db_arg)) = args.next() else { panic!("tracked fn needs a db argument") };
    let Type::Reference(db_ref) = &*db_arg.ty else { panic!("the db argument is a reference") };
    let db_inner = &*db_ref.elem;
    let mut names = vec![];
    let mut pats = vec![];
    let mut tys = vec![];
    for (i, a) in args.enumerate() {
        let FnArg::Typed(p) = a else { panic!("self") };
        names.push(format_ident!("__arg{}", i));
        pats.push(&p.pat);
        tys.push((*p.ty).clone());
    }
    let stys: Vec<Type> = tys.iter().map(to_static).collect();
    let out: Type = match &f.sig.output {
        ReturnType::Default => parse_quote!(()),
        ReturnType::Type(_, t) => (**t).clone(),
    };
    let sout = to_static(&out);
    let db_pat = &db_arg.pat;
    let db_lt = db_ref.lifetime.clone();
    let generics = &f.sig.generics;
    // the public signature: give the db reference a name
    let (pub_generics, lt, db_ty) = match &db_lt {
        Some(l) => (quote!(#generics), l.clone(), quote!(&#l #db_inner)),
        None => {
            let l = Lifetime::new("'__db", Span::call_site());
            let mut g = generics.clone();
            g.params.insert(0, parse_quote!(#l));
            (quote!(#g), l.clone(), quote!(&#l #db_inner))
        }
    };
    let mode = opts.returns.as_deref();
    let (ret, expr) = project(mode, quote!(__value), &out, quote!(#lt));
    let body = &f.block;
    let inner_sig_args = {
        let a = f.sig.inputs.iter();
        quote!(#(#a),*)
    };
    let inner_generics = &f.sig.generics;
    let output = &f.sig.output;
    let idxs: Vec<_> = (0..names.len()).map(Index::from).collect();
    let eq = if opts.no_eq {
        quote!(false)
    } else {
        quote!(__a == __b)
    };
    let _ = (pats, db_pat);
    quote! {
        #(#attrs)*
        #vis fn #name #pub_generics (__db: #db_ty, #(#names: #tys),*) -> #ret {
            struct __Config;
            impl ::salsa::plumbing::TrackedConfig for __Config {
                type Db = #db_inner;
                type Key = ( #(#stys,)* );
                type Output = #sout;
                const NAME: &'static str = #name_str;
                fn index() -> &'static ::salsa::plumbing::IngredientIndex {
                    static I: ::salsa::plumbing::IngredientIndex = ::salsa::plumbing::IngredientIndex::new();
                    &I
                }
                fn upcast(db: &Self::Db) -> &dyn ::salsa::Database {
                    ::salsa::plumbing::AsDynDatabase::as_dyn_database(db)
                }
                fn register_view(db: &Self::Db) { db.__salsa_register_view() }
                fn execute(db: &Self::Db, __key: Self::Key) -> Self::Output {
                    #[allow(clippy::all)]
                    fn __inner #inner_generics (#inner_sig_args) #output #body
                    unsafe { ::salsa::plumbing::erase(__inner(db, #(::salsa::plumbing::erase(__key.#idxs.clone())),*)) }
                }
                fn values_equal(__a: &Self::Output, __b: &Self::Output) -> bool { #eq }
            }
            let __key = unsafe { ( #(::salsa::plumbing::erase::<#tys, #stys>(#names),)* ) };
            let __value: &#lt #out = unsafe {
                ::core::mem::transmute::<&#lt #sout, &#lt #out>(::salsa::plumbing::fetch::<__Config>(__db, __key))
            };
            #expr
        }
    }
    .into()
}

#[proc_macro_derive(Update)]
pub fn derive_update(_input: TokenStream) -> TokenStream {
    TokenStream::new()
}
