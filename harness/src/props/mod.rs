use crate::ctx::Prop;
pub mod chaos;
pub mod contact;
pub mod hist;
pub mod leak;
pub mod longrun;
pub mod mesh;
pub mod meta;
pub mod motion;
pub mod response;
pub mod pose;
pub mod sleep;
pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(hist::props());
    v.extend(pose::props());
    v.extend(motion::props());
    v.extend(contact::props());
    v.extend(response::props());
    v.extend(sleep::props());
    v.extend(longrun::props());
    v.extend(chaos::props());
    v.extend(meta::props());
    v.extend(mesh::props());
    v.extend(leak::props());
    v
}
