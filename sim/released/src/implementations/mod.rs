mod complement;
mod index;
mod intersection;
mod rangetools;
mod union;
