SPECIFICATION LSpec
