#[macro_use]
extern crate napi_derive;
mod ox;

#[napi]
pub fn call(req: String) -> String {
    xform::call(&req)
}

#[napi]
pub fn ox(req: String) -> String {
    ox::run(&req)
}
