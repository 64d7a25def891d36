@@ module error
@@ top
#[allow(unused_imports)] use vstd::std_specs::convert::*;

@@ fn Error as From<io::Error>::from
@@ ret r
@@ spec
    ensures r == Error::Io(err),
@@ fn Error as From<TryFromIntError>::from
@@ ret r
@@ spec
    ensures r == Error::TryFromInt(err),
@@ append
impl FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(err: io::Error) -> Error { Error::Io(err) }
}
impl FromSpecImpl<TryFromIntError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(err: TryFromIntError) -> Error { Error::TryFromInt(err) }
}
