// The documented classes of token kinds, written out by name.
pub const TRIVIA: &[&str] = &["InternalNewline", "Comment", "Whitespace", "Buffer1", "ToplevelNewline", "Buffer2", "Buffer3", "Buffer4"];
pub const CLOSERS: &[&str] = &["CloseParen", "CloseSquare", "CloseCurly", "BarGreater", "LongName_CloseCurlyQuote", "LongName_CloseCurlyDoubleQuote", "LongName_RightCeiling", "LongName_RightFloor", "LongName_RightAngleBracket", "LongName_RightDoubleBracket", "LongName_RightAssociation", "LongName_RightBracketingBar", "LongName_RightDoubleBracketingBar"];
pub const EMPTY: &[&str] = &["EndOfFile", "Error_Aborted", "Error_ExpectedOperand", "Error_ExpectedTag", "Error_ExpectedFile", "Error_PrefixImplicitNull", "Error_InfixImplicitNull", "Fake_ImplicitTimes", "Fake_ImplicitNull", "Fake_ImplicitOne", "Fake_ImplicitAll"];
pub const BEGINNING: &[&str] = &["Symbol", "String", "Integer", "Real", "Rational", "LinearSyntaxBlob", "OpenParen", "OpenCurly", "Bang", "Under", "Minus", "Hash", "Plus", "Percent", "UnderUnder", "UnderDot", "LessBar", "LessLess", "MinusMinus", "SemiSemi", "PlusPlus", "HashHash", "BangBang", "UnderUnderUnder", "PercentPercent", "LinearSyntax_Bang", "LongName_Not", "LongName_PlusMinus", "LongName_OpenCurlyQuote", "LongName_OpenCurlyDoubleQuote", "LongName_ForAll", "LongName_Exists", "LongName_NotExists", "LongName_Del", "LongName_Product", "LongName_Coproduct", "LongName_Sum", "LongName_Minus", "LongName_MinusPlus", "LongName_Sqrt", "LongName_CubeRoot", "LongName_Integral", "LongName_ContourIntegral", "LongName_DoubleContourIntegral", "LongName_ClockwiseContourIntegral", "LongName_CounterClockwiseContourIntegral", "LongName_CircleTimes", "LongName_LeftCeiling", "LongName_LeftFloor", "LongName_LeftAngleBracket", "LongName_LeftAssociation", "LongName_Piecewise", "LongName_InvisiblePrefixScriptBase", "LongName_ContinuedFractionK", "LongName_ProbabilityPr", "LongName_ExpectationE", "LongName_Square", "LongName_LeftBracketingBar", "LongName_LeftDoubleBracketingBar", "LongName_CapitalDifferentialD", "LongName_DifferentialD"];
pub const OPENERS: &[(&str, &str)] = &[("ColonColonOpenSquare", "CloseSquare"), ("LongName_LeftAngleBracket", "LongName_RightAngleBracket"), ("LongName_LeftAssociation", "LongName_RightAssociation"), ("LongName_LeftBracketingBar", "LongName_RightBracketingBar"), ("LongName_LeftCeiling", "LongName_RightCeiling"), ("LongName_LeftDoubleBracket", "LongName_RightDoubleBracket"), ("LongName_LeftDoubleBracketingBar", "LongName_RightDoubleBracketingBar"), ("LongName_LeftFloor", "LongName_RightFloor"), ("LessBar", "BarGreater"), ("OpenCurly", "CloseCurly"), ("LongName_OpenCurlyDoubleQuote", "LongName_CloseCurlyDoubleQuote"), ("LongName_OpenCurlyQuote", "LongName_CloseCurlyQuote"), ("OpenParen", "CloseParen"), ("OpenSquare", "CloseSquare")];
