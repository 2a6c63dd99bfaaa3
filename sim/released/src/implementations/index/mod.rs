mod bounded_range;
mod empty_range;
mod lower_bounded_range;
mod unbounded_range;
mod upper_bounded_range;
