//! A terminal nobody looks at: the part of slog-term that the runtime's loggers use.

use slog::{Drain, OwnedKVList, Record};

pub struct TermDecorator;

impl TermDecorator {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> TermDecoratorBuilder {
        TermDecoratorBuilder
    }
}

pub struct TermDecoratorBuilder;

impl TermDecoratorBuilder {
    pub fn build(self) -> TermDecorator {
        TermDecorator
    }
}

pub struct PlainSyncDecorator;

impl PlainSyncDecorator {
    pub fn new<W>(_: W) -> PlainSyncDecorator {
        PlainSyncDecorator
    }
}

pub struct FullFormat<D>(D);

impl<D> FullFormat<D> {
    #[allow(clippy::new_ret_no_self)]
    pub fn new(decorator: D) -> FullFormatBuilder<D> {
        FullFormatBuilder(decorator)
    }
}

pub struct FullFormatBuilder<D>(D);

impl<D> FullFormatBuilder<D> {
    pub fn build(self) -> FullFormat<D> {
        FullFormat(self.0)
    }
}

impl<D> Drain for FullFormat<D> {
    type Ok = ();
    type Err = std::io::Error;

    fn log(&self, _: &Record, _: &OwnedKVList) -> Result<(), std::io::Error> {
        Ok(())
    }
}

