# pairs of descriptions with equal variant hashes (found by search)
COLLIDING = [
 [
  [
   [
    "a",
    "f",
    "34543"
   ]
  ],
  [
   [
    "a",
    "f",
    "49038"
   ],
   [
    "a",
    "g",
    "3"
   ]
  ]
 ],
 [
  [
   [
    "a",
    "f",
    "8475"
   ]
  ],
  [
   [
    "a",
    "f",
    "104306"
   ],
   [
    "a",
    "g",
    "6"
   ]
  ]
 ],
 [
  [
   [
    "a",
    "f",
    "102878"
   ],
   [
    "a",
    "g",
    "6"
   ]
  ],
  [
   [
    "a",
    "f",
    "167586"
   ],
   [
    "a",
    "g",
    "6"
   ]
  ]
 ],
 [
  [
   [
    "a",
    "f",
    "51747"
   ]
  ],
  [
   [
    "a",
    "f",
    "169718"
   ],
   [
    "a",
    "g",
    "3"
   ]
  ]
 ],
 [
  [
   [
    "a",
    "f",
    "138471"
   ]
  ],
  [
   [
    "a",
    "f",
    "196934"
   ],
   [
    "a",
    "g",
    "3"
   ]
  ]
 ],
 [
  [
   [
    "a",
    "f",
    "50263"
   ]
  ],
  [
   [
    "a",
    "f",
    "198307"
   ]
  ]
 ]
]
