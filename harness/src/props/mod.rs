use crate::run::Prop;
mod seqp;
mod compactp;
mod graph;
mod faults;
mod conc;
pub mod sec;
mod store;
mod race;
mod fmtp;
pub mod life;
mod scale;
mod dx;

pub fn all() -> Vec<&'static Prop> {
    let mut v = vec![];
    v.extend(seqp::PROPS);
    v.extend(graph::PROPS);
    v.extend(compactp::PROPS);
    v.extend(faults::PROPS);
    v.extend(conc::PROPS);
    v.extend(sec::PROPS);
    v.extend(store::PROPS);
    v.extend(race::PROPS);
    v.extend(fmtp::PROPS);
    v.extend(life::PROPS);
    v.extend(scale::PROPS);
    v.extend(dx::PROPS);
    v
}
