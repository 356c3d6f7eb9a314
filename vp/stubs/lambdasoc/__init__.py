"""Minimal stand-in for lambdasoc: what amlib's SoC helper needs of it; everything else imports as an empty class."""
