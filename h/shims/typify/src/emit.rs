//! The types, as code.
use super::*;

impl TypeSpace {
    pub fn to_stream(&self) -> TokenStream {
        let mut named: Vec<(&str, &TypeId, &Details)> = self
            .entries
            .iter()
            .filter_map(|(id, d)| name_of(d).map(|n| (n, id, d)))
            .collect();
        named.sort_by_key(|(n, ..)| n.to_string());
        let mut items = TokenStream::new();
        let mut builders = TokenStream::new();
        let mut defaults = TokenStream::new();
        for (name, id, d) in named {
            let mut derives: Vec<TokenStream> = vec![
                quote! { ::serde::Deserialize },
                quote! { ::serde::Serialize },
                quote! { Clone },
                quote! { Debug },
            ];
            let mut extra: Vec<String> = self.settings.derives.clone();
            extra.extend(self.derives.get(id).cloned().unwrap_or_default());
            match d {
                Details::Struct { props, deny, .. } => self.emit_struct(
                    name,
                    props,
                    *deny,
                    extra,
                    derives,
                    (&mut items, &mut builders, &mut defaults),
                ),
                Details::Enum {
                    variants, default, ..
                } => {
                    for t in ["Copy", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord"] {
                        derives.push(Self::toks(t));
                    }
                    self.emit_enum(name, variants, default, extra, derives, &mut items)
                }
                Details::Untagged { variants, .. } => {
                    self.emit_untagged(name, id, variants, extra, derives, &mut items)
                }
                Details::Newtype {
                    inner,
                    check,
                    default,
                    ..
                } => self.emit_newtype(
                    name,
                    id,
                    inner,
                    check,
                    default,
                    extra,
                    derives,
                    &mut items,
                ),
                _ => {}
            }
        }
        let builders = self.settings.struct_builder.then(|| {
            quote! {
                /// Types for composing complex structures.
                pub mod builder { #builders }
            }
        });
        let defaults = (!defaults.is_empty()).then(|| {
            quote! {
                /// Generation of default values for serde.
                pub mod defaults { #defaults }
            }
        });
        quote! {
            /// Error types.
            pub mod error {
                /// Error from a `TryFrom` or `FromStr` implementation.
                pub struct ConversionError(::std::borrow::Cow<'static, str>);
                impl ::std::error::Error for ConversionError {}
                impl ::std::fmt::Display for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>)
                        -> Result<(), ::std::fmt::Error>
                    {
                        ::std::fmt::Display::fmt(&self.0, f)
                    }
                }
                impl ::std::fmt::Debug for ConversionError {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>)
                        -> Result<(), ::std::fmt::Error>
                    {
                        ::std::fmt::Debug::fmt(&self.0, f)
                    }
                }
                impl From<&'static str> for ConversionError {
                    fn from(value: &'static str) -> Self {
                        Self(value.into())
                    }
                }
                impl From<String> for ConversionError {
                    fn from(value: String) -> Self {
                        Self(value.into())
                    }
                }
            }
            #items
            #builders
            #defaults
        }
    }

    fn derive(extra: Vec<String>, mut derives: Vec<TokenStream>) -> TokenStream {
        for e in extra {
            let t = Self::toks(&e);
            if !derives.iter().any(|d| d.to_string() == t.to_string()) {
                derives.push(t);
            }
        }
        quote! { #[derive(#(#derives),*)] }
    }

    /// An expression for a default value.
    fn value(&self, id: &TypeId, v: &Value) -> TokenStream {
        let t = self.ident_of(id, false);
        let json = v.to_string();
        // Names inside the types module are seen from its `defaults` module.
        let t = match name_of(&self.entries[id]) {
            Some(_) => quote! { super::#t },
            None => t,
        };
        quote! { ::serde_json::from_str::<#t>(#json).unwrap() }
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_struct(
        &self,
        name: &str,
        props: &[Prop],
        deny: bool,
        extra: Vec<String>,
        derives: Vec<TokenStream>,
        (items, builders, defaults): (&mut TokenStream, &mut TokenStream, &mut TokenStream),
    ) {
        let n = format_ident!("{}", name);
        let derive = Self::derive(extra, derives);
        let deny = deny.then(|| quote! { #[serde(deny_unknown_fields)] });
        let mut fields = vec![];
        let mut names = vec![];
        let mut types = vec![];
        let mut super_types = vec![];
        let mut inits = vec![];
        let mut all_default = true;
        for p in props {
            let f = format_ident!("{}", p.name);
            let t = self.ident_of(&p.id, false);
            let mut serde: Vec<TokenStream> = vec![];
            if p.flatten {
                serde.push(quote! { flatten });
            } else if p.name.trim_start_matches("r#") != p.json {
                let j = &p.json;
                serde.push(quote! { rename = #j });
            }
            let missing = format!("no value supplied for {}", p.name);
            let init = if p.flatten {
                inits.push(quote! { Ok(Default::default()) });
                None
            } else if p.required {
                all_default = false;
                inits.push(quote! { Err(#missing.to_string()) });
                None
            } else if let Some(d) = &p.default {
                let f = format_ident!("{}_{}", name.to_snake_case(), p.name);
                let e = self.value(&p.id, d);
                let st = self.super_ident(&p.id);
                defaults.extend(quote! {
                    pub(super) fn #f() -> #st { #e }
                });
                let path = format!("defaults::{f}");
                serde.push(quote! { default = #path });
                inits.push(quote! { Ok(super::defaults::#f()) });
                all_default = false;
                None
            } else {
                serde.push(quote! { default });
                inits.push(quote! { Ok(Default::default()) });
                match &self.entries[&p.id] {
                    Details::Option(_) => Some("::std::option::Option::is_none".to_string()),
                    Details::Vec(_) => Some("::std::vec::Vec::is_empty".to_string()),
                    Details::Map(i) => Some(match &self.settings.map_type {
                        Some(m) => format!("{}::is_empty", m.replace(' ', "")),
                        None if self.entries[i] == Details::Json => {
                            "::serde_json::Map::is_empty".to_string()
                        }
                        None => "::std::collections::HashMap::is_empty".to_string(),
                    }),
                    _ => None,
                }
            };
            if let Some(skip) = init {
                serde.push(quote! { skip_serializing_if = #skip });
            }
            let attr = (!serde.is_empty()).then(|| quote! { #[serde(#(#serde),*)] });
            fields.push(quote! { #attr pub #f: #t });
            names.push(f);
            types.push(t);
            super_types.push(self.super_ident(&p.id));
        }
        let builder_fn = self.settings.struct_builder.then(|| {
            quote! {
                impl #n {
                    pub fn builder() -> builder::#n { Default::default() }
                }
            }
        });
        let default_impl = all_default.then(|| {
            let inits = names.iter().map(|f| quote! { #f: Default::default() });
            quote! {
                impl ::std::default::Default for #n {
                    fn default() -> Self { Self { #(#inits),* } }
                }
            }
        });
        items.extend(quote! {
            #derive
            #deny
            pub struct #n { #(#fields),* }
            impl ::std::convert::From<&#n> for #n {
                fn from(value: &#n) -> Self { value.clone() }
            }
            #default_impl
            #builder_fn
        });
        if self.settings.struct_builder {
            let errs = props
                .iter()
                .map(|p| format!("error converting supplied value for {}: {{}}", p.name));
            builders.extend(quote! {
                #[derive(Clone, Debug)]
                pub struct #n {
                    #(#names: ::std::result::Result<#super_types, ::std::string::String>),*
                }
                impl ::std::default::Default for #n {
                    fn default() -> Self { Self { #(#names: #inits),* } }
                }
                impl #n {
                    #(
                        pub fn #names<T>(mut self, value: T) -> Self
                        where
                            T: ::std::convert::TryInto<#super_types>,
                            T::Error: ::std::fmt::Display,
                        {
                            self.#names = value.try_into().map_err(|e| format!(#errs, e));
                            self
                        }
                    )*
                }
                impl ::std::convert::TryFrom<#n> for super::#n {
                    type Error = super::error::ConversionError;
                    #[allow(unused_variables)]
                    fn try_from(value: #n)
                        -> ::std::result::Result<Self, super::error::ConversionError>
                    {
                        Ok(Self { #(#names: value.#names?),* })
                    }
                }
                impl ::std::convert::From<super::#n> for #n {
                    #[allow(unused_variables)]
                    fn from(value: super::#n) -> Self {
                        Self { #(#names: Ok(value.#names)),* }
                    }
                }
            });
        }
    }

    fn super_ident(&self, id: &TypeId) -> TokenStream {
        fn walk(s: &TypeSpace, id: &TypeId) -> TokenStream {
            match &s.entries[id] {
                Details::Option(i) => {
                    let i = walk(s, i);
                    quote! { ::std::option::Option<#i> }
                }
                Details::Vec(i) => {
                    let i = walk(s, i);
                    quote! { ::std::vec::Vec<#i> }
                }
                Details::Boxed(i) => {
                    let i = walk(s, i);
                    quote! { ::std::boxed::Box<#i> }
                }
                Details::Map(i) if name_of(&s.entries[i]).is_some() || matches!(s.entries[i], Details::Option(_) | Details::Vec(_) | Details::Map(_)) => {
                    let i = walk(s, i);
                    match &s.settings.map_type {
                        None => quote! { ::std::collections::HashMap<::std::string::String, #i> },
                        Some(m) => {
                            let m = TypeSpace::toks(m);
                            quote! { #m<::std::string::String, #i> }
                        }
                    }
                }
                d => {
                    let t = s.ident_of(id, false);
                    match name_of(d) {
                        Some(_) => quote! { super::#t },
                        None => t,
                    }
                }
            }
        }
        walk(self, id)
    }

    fn string_conversions(n: &proc_macro2::Ident) -> TokenStream {
        quote! {
            impl ::std::convert::TryFrom<&str> for #n {
                type Error = self::error::ConversionError;
                fn try_from(value: &str)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    value.parse()
                }
            }
            impl ::std::convert::TryFrom<&::std::string::String> for #n {
                type Error = self::error::ConversionError;
                fn try_from(value: &::std::string::String)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    value.parse()
                }
            }
            impl ::std::convert::TryFrom<::std::string::String> for #n {
                type Error = self::error::ConversionError;
                fn try_from(value: ::std::string::String)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    value.parse()
                }
            }
        }
    }

    fn emit_enum(
        &self,
        name: &str,
        variants: &[(String, String)],
        default: &Option<String>,
        extra: Vec<String>,
        derives: Vec<TokenStream>,
        items: &mut TokenStream,
    ) {
        let n = format_ident!("{}", name);
        let derive = Self::derive(extra, derives);
        let vn: Vec<_> = variants.iter().map(|(v, _)| format_ident!("{}", v)).collect();
        let vs: Vec<_> = variants.iter().map(|(_, s)| s.as_str()).collect();
        let vars = variants.iter().zip(&vn).map(|((v, s), i)| {
            let r = (v != s).then(|| quote! { #[serde(rename = #s)] });
            quote! { #r #i }
        });
        let default = default.as_ref().map(|d| {
            let d = format_ident!("{}", d);
            quote! {
                impl ::std::default::Default for #n {
                    fn default() -> Self { #n::#d }
                }
            }
        });
        let conv = Self::string_conversions(&n);
        items.extend(quote! {
            #derive
            pub enum #n { #(#vars),* }
            impl ::std::convert::From<&#n> for #n {
                fn from(value: &#n) -> Self { value.clone() }
            }
            impl ::std::fmt::Display for #n {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    match *self { #(Self::#vn => f.write_str(#vs)),* }
                }
            }
            impl ::std::str::FromStr for #n {
                type Err = self::error::ConversionError;
                fn from_str(value: &str)
                    -> ::std::result::Result<Self, self::error::ConversionError>
                {
                    match value {
                        #(#vs => Ok(Self::#vn),)*
                        _ => Err("invalid value".into()),
                    }
                }
            }
            #conv
            #default
        });
    }

    fn emit_untagged(
        &self,
        name: &str,
        id: &TypeId,
        variants: &[(String, TypeId)],
        extra: Vec<String>,
        derives: Vec<TokenStream>,
        items: &mut TokenStream,
    ) {
        let n = format_ident!("{}", name);
        let derive = Self::derive(extra, derives);
        let vn: Vec<_> = variants.iter().map(|(v, _)| format_ident!("{}", v)).collect();
        let vt: Vec<_> = variants.iter().map(|(_, t)| self.ident_of(t, false)).collect();
        let display = self.has_impl(id, TypeSpaceImpl::Display).then(|| {
            quote! {
                impl ::std::fmt::Display for #n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        match self { #(Self::#vn(x) => x.fmt(f)),* }
                    }
                }
            }
        });
        let from_str = self.has_impl(id, TypeSpaceImpl::FromStr).then(|| {
            let conv = Self::string_conversions(&n);
            quote! {
                impl ::std::str::FromStr for #n {
                    type Err = self::error::ConversionError;
                    fn from_str(value: &str)
                        -> ::std::result::Result<Self, self::error::ConversionError>
                    {
                        #(
                            if let Ok(v) = value.parse() {
                                return Ok(Self::#vn(v));
                            }
                        )*
                        Err("string conversion failed for all variants".into())
                    }
                }
                #conv
            }
        });
        items.extend(quote! {
            #derive
            #[serde(untagged)]
            pub enum #n { #(#vn(#vt)),* }
            impl ::std::convert::From<&Self> for #n {
                fn from(value: &#n) -> Self { value.clone() }
            }
            #from_str
            #display
        });
    }

    #[allow(clippy::too_many_arguments)]
    fn emit_newtype(
        &self,
        name: &str,
        id: &TypeId,
        inner: &TypeId,
        check: &Check,
        default: &Option<Value>,
        extra: Vec<String>,
        derives: Vec<TokenStream>,
        items: &mut TokenStream,
    ) {
        let n = format_ident!("{}", name);
        let t = self.ident_of(inner, false);
        let is_string = self.entries[inner] == Details::String;
        let display = self.has_impl(id, TypeSpaceImpl::Display).then(|| {
            quote! {
                impl ::std::fmt::Display for #n {
                    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                        self.0.fmt(f)
                    }
                }
            }
        });
        let default = default.as_ref().map(|d| {
            let json = d.to_string();
            quote! {
                impl ::std::default::Default for #n {
                    fn default() -> Self { ::serde_json::from_str(#json).unwrap() }
                }
            }
        });
        let test = match check {
            Check::None => None,
            Check::Length(lo, hi) => {
                let lo = lo.map(|lo| {
                    quote! {
                        if value.chars().count() < #lo as usize {
                            return Err(concat!("shorter than ", #lo, " characters").into());
                        }
                    }
                });
                let hi = hi.map(|hi| {
                    quote! {
                        if value.chars().count() > #hi as usize {
                            return Err(concat!("longer than ", #hi, " characters").into());
                        }
                    }
                });
                Some(quote! { #lo #hi })
            }
            Check::OneOf(vs) => {
                let vs = vs.iter().map(|v| {
                    let json = v.to_string();
                    quote! { ::serde_json::from_str::<#t>(#json).unwrap() }
                });
                Some(quote! {
                    if ![#(#vs),*].contains(&value) {
                        return Err("invalid value".into());
                    }
                })
            }
        };
        let common = quote! {
            impl ::std::ops::Deref for #n {
                type Target = #t;
                fn deref(&self) -> &#t { &self.0 }
            }
            impl ::std::convert::From<&#n> for #n {
                fn from(value: &#n) -> Self { value.clone() }
            }
            #display
            #default
        };
        match test {
            None => {
                let derive = Self::derive(extra, derives);
                let from_str = if is_string {
                    quote! {
                        impl ::std::str::FromStr for #n {
                            type Err = ::std::convert::Infallible;
                            fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> {
                                Ok(Self(value.to_string()))
                            }
                        }
                    }
                } else if self.has_impl(inner, TypeSpaceImpl::FromStr) {
                    quote! {
                        impl ::std::str::FromStr for #n {
                            type Err = <#t as ::std::str::FromStr>::Err;
                            fn from_str(value: &str) -> ::std::result::Result<Self, Self::Err> {
                                Ok(Self(value.parse()?))
                            }
                        }
                        impl ::std::convert::TryFrom<&str> for #n {
                            type Error = <#t as ::std::str::FromStr>::Err;
                            fn try_from(value: &str) -> ::std::result::Result<Self, Self::Error> {
                                value.parse()
                            }
                        }
                        impl ::std::convert::TryFrom<::std::string::String> for #n {
                            type Error = <#t as ::std::str::FromStr>::Err;
                            fn try_from(value: ::std::string::String)
                                -> ::std::result::Result<Self, Self::Error>
                            {
                                value.parse()
                            }
                        }
                    }
                } else {
                    quote! {}
                };
                items.extend(quote! {
                    #derive
                    #[serde(transparent)]
                    pub struct #n(pub #t);
                    impl ::std::convert::From<#n> for #t {
                        fn from(value: #n) -> Self { value.0 }
                    }
                    impl ::std::convert::From<#t> for #n {
                        fn from(value: #t) -> Self { Self(value) }
                    }
                    #from_str
                    #common
                });
            }
            Some(test) => {
                let derives = derives.into_iter().skip(1).collect();
                let derive = Self::derive(extra, derives);
                let from = if is_string {
                    let conv = Self::string_conversions(&n);
                    quote! {
                        impl ::std::str::FromStr for #n {
                            type Err = self::error::ConversionError;
                            fn from_str(value: &str)
                                -> ::std::result::Result<Self, self::error::ConversionError>
                            {
                                let value = value.to_string();
                                #test
                                Ok(Self(value))
                            }
                        }
                        #conv
                        impl<'de> ::serde::Deserialize<'de> for #n {
                            fn deserialize<D>(d: D) -> ::std::result::Result<Self, D::Error>
                            where D: ::serde::Deserializer<'de>,
                            {
                                ::std::string::String::deserialize(d)?
                                    .parse()
                                    .map_err(|e: self::error::ConversionError| {
                                        <D::Error as ::serde::de::Error>::custom(e.to_string())
                                    })
                            }
                        }
                    }
                } else {
                    quote! {
                        impl ::std::convert::TryFrom<#t> for #n {
                            type Error = self::error::ConversionError;
                            fn try_from(value: #t)
                                -> ::std::result::Result<Self, self::error::ConversionError>
                            {
                                #test
                                Ok(Self(value))
                            }
                        }
                        impl<'de> ::serde::Deserialize<'de> for #n {
                            fn deserialize<D>(d: D) -> ::std::result::Result<Self, D::Error>
                            where D: ::serde::Deserializer<'de>,
                            {
                                Self::try_from(<#t as ::serde::Deserialize>::deserialize(d)?)
                                    .map_err(|e| <D::Error as ::serde::de::Error>::custom(e.to_string()))
                            }
                        }
                    }
                };
                items.extend(quote! {
                    #derive
                    #[serde(transparent)]
                    pub struct #n(#t);
                    impl ::std::convert::From<#n> for #t {
                        fn from(value: #n) -> Self { value.0 }
                    }
                    #from
                    #common
                });
            }
        }
    }
}
