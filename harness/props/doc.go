package props
