mod range;
mod range_from;
mod range_full;
mod range_inclusive;
mod range_to;
mod range_to_inclusive;

mod bounded_range;
mod empty_range;
mod lower_bounded_range;
mod unbounded_range;
mod upper_bounded_range;

mod bounded_set;
mod lower_bounded_set;
mod unbounded_set;
mod upper_bounded_set;
