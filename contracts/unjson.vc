fn Value:TyOf::ty() -> r
  ens[C15]: r == v_ty(*self)

fn Option:OkType<T>::ok_type(expected, actual) -> r
  ens[C15,C16]: self is Some ==> r == Ok::<T, Error>(self->0)
  ens[C15,C16]: self is None ==> r == Err::<T, Error>(Error::TypeMismatch(expected, actual))

fn type_error(expected, actual) -> r
  ens[C15,C16]: r == Err::<T, Error>(Error::TypeMismatch(expected, actual))

fn Value:ValueEx::as_number() -> r
  ens[C15]: conv(r, v_f64(*self), "number"@, *self)

fn Value:ValueEx::as_bool_opt() -> r
  ens[C16]: conv_opt(r, v_bool(*self), "boolean"@, *self)
  entry: reveal_strlit("boolean"); reveal_strlit(" or null"); reveal_strlit("boolean or null"); assert("boolean or null"@ =~= "boolean"@ + " or null"@);

fn Value:Unjson::to_bool() -> r
  ens[C17]: conv(r, v_bool(*self), "boolean"@, *self)

fn Value:Unjson::to_bool_opt() -> r
  ens[C17,C16]: conv_opt(r, v_bool(*self), "boolean"@, *self)
  entry: reveal_strlit("boolean"); reveal_strlit(" or null"); reveal_strlit("boolean or null"); assert("boolean or null"@ =~= "boolean"@ + " or null"@);

fn Object:GetField::get_bool(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(r, v_bool(self@[name@]), "boolean"@, self@[name@])

fn Object:GetField::get_bool_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(r, v_bool(self@[name@]), "boolean"@, self@[name@])

fn Object:ExtractField::extract_bool(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_bool(old(self)@[name@]), "boolean"@, old(self)@[name@])

fn Object:ExtractField::extract_bool_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_bool(old(self)@[name@]), "boolean"@, old(self)@[name@])

fn Value:ValueEx::as_i64_opt() -> r
  ens[C16]: conv_opt(r, v_i64(*self), "i64"@, *self)
  entry: reveal_strlit("i64"); reveal_strlit(" or null"); reveal_strlit("i64 or null"); assert("i64 or null"@ =~= "i64"@ + " or null"@);

fn Value:Unjson::to_i64() -> r
  ens[C17]: conv(r, v_i64(*self), "i64"@, *self)

fn Value:Unjson::to_i64_opt() -> r
  ens[C17,C16]: conv_opt(r, v_i64(*self), "i64"@, *self)
  entry: reveal_strlit("i64"); reveal_strlit(" or null"); reveal_strlit("i64 or null"); assert("i64 or null"@ =~= "i64"@ + " or null"@);

fn Object:GetField::get_i64(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(r, v_i64(self@[name@]), "i64"@, self@[name@])

fn Object:GetField::get_i64_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(r, v_i64(self@[name@]), "i64"@, self@[name@])

fn Object:ExtractField::extract_i64(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_i64(old(self)@[name@]), "i64"@, old(self)@[name@])

fn Object:ExtractField::extract_i64_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_i64(old(self)@[name@]), "i64"@, old(self)@[name@])

fn Value:ValueEx::as_u64_opt() -> r
  ens[C16]: conv_opt(r, v_u64(*self), "u64"@, *self)
  entry: reveal_strlit("u64"); reveal_strlit(" or null"); reveal_strlit("u64 or null"); assert("u64 or null"@ =~= "u64"@ + " or null"@);

fn Value:Unjson::to_u64() -> r
  ens[C17]: conv(r, v_u64(*self), "u64"@, *self)

fn Value:Unjson::to_u64_opt() -> r
  ens[C17,C16]: conv_opt(r, v_u64(*self), "u64"@, *self)
  entry: reveal_strlit("u64"); reveal_strlit(" or null"); reveal_strlit("u64 or null"); assert("u64 or null"@ =~= "u64"@ + " or null"@);

fn Object:GetField::get_u64(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(r, v_u64(self@[name@]), "u64"@, self@[name@])

fn Object:GetField::get_u64_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(r, v_u64(self@[name@]), "u64"@, self@[name@])

fn Object:ExtractField::extract_u64(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_u64(old(self)@[name@]), "u64"@, old(self)@[name@])

fn Object:ExtractField::extract_u64_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_u64(old(self)@[name@]), "u64"@, old(self)@[name@])

fn Value:ValueEx::as_f64_opt() -> r
  ens[C16]: conv_opt(r, v_f64(*self), "f64"@, *self)
  entry: reveal_strlit("f64"); reveal_strlit(" or null"); reveal_strlit("f64 or null"); assert("f64 or null"@ =~= "f64"@ + " or null"@);

fn Value:Unjson::to_f64() -> r
  ens[C17]: conv(r, v_f64(*self), "f64"@, *self)

fn Value:Unjson::to_f64_opt() -> r
  ens[C17,C16]: conv_opt(r, v_f64(*self), "f64"@, *self)
  entry: reveal_strlit("f64"); reveal_strlit(" or null"); reveal_strlit("f64 or null"); assert("f64 or null"@ =~= "f64"@ + " or null"@);

fn Object:GetField::get_f64(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(r, v_f64(self@[name@]), "f64"@, self@[name@])

fn Object:GetField::get_f64_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(r, v_f64(self@[name@]), "f64"@, self@[name@])

fn Object:ExtractField::extract_f64(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_f64(old(self)@[name@]), "f64"@, old(self)@[name@])

fn Object:ExtractField::extract_f64_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_f64(old(self)@[name@]), "f64"@, old(self)@[name@])

fn Value:ValueEx::as_number_opt() -> r
  ens[C16]: conv_opt(r, v_f64(*self), "number"@, *self)
  entry: reveal_strlit("number"); reveal_strlit(" or null"); reveal_strlit("number or null"); assert("number or null"@ =~= "number"@ + " or null"@);

fn Value:Unjson::to_number() -> r
  ens[C17]: conv(r, v_f64(*self), "number"@, *self)

fn Value:Unjson::to_number_opt() -> r
  ens[C17,C16]: conv_opt(r, v_f64(*self), "number"@, *self)
  entry: reveal_strlit("number"); reveal_strlit(" or null"); reveal_strlit("number or null"); assert("number or null"@ =~= "number"@ + " or null"@);

fn Object:GetField::get_number(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(r, v_f64(self@[name@]), "number"@, self@[name@])

fn Object:GetField::get_number_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(r, v_f64(self@[name@]), "number"@, self@[name@])

fn Object:ExtractField::extract_number(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_f64(old(self)@[name@]), "number"@, old(self)@[name@])

fn Object:ExtractField::extract_number_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_f64(old(self)@[name@]), "number"@, old(self)@[name@])

fn Value:ValueEx::as_array_opt() -> r
  ens[C16]: conv_opt(deref_opt(r), v_arr(*self), "array"@, *self)
  entry: reveal_strlit("array"); reveal_strlit(" or null"); reveal_strlit("array or null"); assert("array or null"@ =~= "array"@ + " or null"@);

fn Object:GetField::get_array(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(deref(r), v_arr(self@[name@]), "array"@, self@[name@])

fn Object:GetField::get_array_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(deref_opt(r), v_arr(self@[name@]), "array"@, self@[name@])

fn Value:ValueEx::as_object_opt() -> r
  ens[C16]: conv_opt(deref_opt(r), v_obj(*self), "object"@, *self)
  entry: reveal_strlit("object"); reveal_strlit(" or null"); reveal_strlit("object or null"); assert("object or null"@ =~= "object"@ + " or null"@);

fn Object:GetField::get_object(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> conv(deref(r), v_obj(self@[name@]), "object"@, self@[name@])

fn Object:GetField::get_object_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> conv_opt(deref_opt(r), v_obj(self@[name@]), "object"@, self@[name@])

fn Value:Unjson::into_array() -> r
  ens[C17]: conv(r, v_arr(self), "array"@, self)

fn Value:Unjson::into_array_opt() -> r
  ens[C17,C16]: conv_opt(r, v_arr(self), "array"@, self)
  entry: reveal_strlit("array"); reveal_strlit(" or null"); reveal_strlit("array or null"); assert("array or null"@ =~= "array"@ + " or null"@);

fn Object:ExtractField::extract_array(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_arr(old(self)@[name@]), "array"@, old(self)@[name@])

fn Object:ExtractField::extract_array_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_arr(old(self)@[name@]), "array"@, old(self)@[name@])

fn Value:Unjson::into_object() -> r
  ens[C17]: conv(r, v_obj(self), "object"@, self)

fn Value:Unjson::into_object_opt() -> r
  ens[C17,C16]: conv_opt(r, v_obj(self), "object"@, self)
  entry: reveal_strlit("object"); reveal_strlit(" or null"); reveal_strlit("object or null"); assert("object or null"@ =~= "object"@ + " or null"@);

fn Object:ExtractField::extract_object(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_obj(old(self)@[name@]), "object"@, old(self)@[name@])

fn Object:ExtractField::extract_object_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_obj(old(self)@[name@]), "object"@, old(self)@[name@])

fn Value:Unjson::into_string() -> r
  ens[C17]: conv(r, v_str(self), "string"@, self)

fn Value:Unjson::into_string_opt() -> r
  ens[C17,C16]: conv_opt(r, v_str(self), "string"@, self)
  entry: reveal_strlit("string"); reveal_strlit(" or null"); reveal_strlit("string or null"); assert("string or null"@ =~= "string"@ + " or null"@);

fn Object:ExtractField::extract_string(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> conv(r, v_str(old(self)@[name@]), "string"@, old(self)@[name@])

fn Object:ExtractField::extract_string_opt(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17,C16]: old(self)@.contains_key(name@) ==> conv_opt(r, v_str(old(self)@[name@]), "string"@, old(self)@[name@])

fn Value:ValueEx::as_str_opt() -> r
  ens[C16]: str_conv_opt(r, *self)
  entry: reveal_strlit("string"); reveal_strlit(" or null"); reveal_strlit("string or null"); assert("string or null"@ =~= "string"@ + " or null"@);

fn Object:GetField::get_string(name) -> r
  ens[C15]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15]: self@.contains_key(name@) ==> str_conv(r, self@[name@])

fn Object:GetField::get_string_opt(name) -> r
  ens[C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C16]: self@.contains_key(name@) ==> str_conv_opt(r, self@[name@])

fn Object:GetField::get_field(name) -> r
  ens[C15,C16]: !self@.contains_key(name@) ==> missing(r, name)
  ens[C15,C16]: self@.contains_key(name@) ==> deref(r) == Ok::<Value, Error>(self@[name@])

fn Object:ExtractField::extract_field(name) -> r
  ens[C17]: final(self)@ == old(self)@.remove(name@)
  ens[C17]: !old(self)@.contains_key(name@) ==> missing(r, name)
  ens[C17]: old(self)@.contains_key(name@) ==> r == Ok::<Value, Error>(old(self)@[name@])

fn field_error(name) -> r
  ens[C15]: r == Err::<T, Error>(Error::MissingField(name))

fn array_error(expected, actual) -> r
  ens[C15]: r == Err::<T, Error>(Error::WrongArrayLength(expected, actual))

fn index_error(len, index) -> r
  ens[C15]: r == Err::<T, Error>(Error::IndexOutOfBounds(len, index))

fn string_error(expected, actual) -> r
  ens[C15]: r == Err::<T, Error>(Error::IllegalString(expected, actual))
