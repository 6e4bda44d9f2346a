//! Stand-in for tracing-subscriber (the binary is not analysed).
