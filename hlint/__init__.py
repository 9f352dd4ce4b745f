"""Static analysis of adtzlr/hyperelastic by abstract interpretation of its source."""
