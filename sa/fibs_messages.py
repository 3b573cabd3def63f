"""Messages of FIBS and its client interface (CLIP 1008), by the state of the session.

Transcribed from the interface description and the comments of bglib/protocol/fibs.py, as forms (regular
expressions found at the beginning of the message).
"""

N = '[a-zA-Z_<>]+'

LOGIN = {
    'FIBS_LoginPrompt': [r'login:'],
    'CLIP_WELCOME': [r'1 ' + N + r' [0-9]+ '],
    'CLIP_OWN_INFO': [r'2 ' + N + r' [01] [01]'],
    'CLIP_MOTD_BEGIN': [r'3$'],
    'FIBS_FailedLogin': [r'> [0-9]+'],
    'FIBS_PreLogin': [r'[^123>l]'],
}

MOTD = {
    'CLIP_MOTD_END': [r'4$'],
    'FIBS_MOTD': [r'[^4]'],
}

RUN = {
    'FIBS_Board': [r'board:' + N + r':' + N + r':[0-9:\-]+$'],
    'FIBS_BAD_Board': [r'board:(?!' + N + r':' + N + r':[0-9:\-]+$)'],
    'FIBS_YouRoll': [r'You roll [1-6] and [1-6]'],
    'FIBS_PlayerRolls': [N + r' rolls [1-6] and [1-6]'],
    'FIBS_RollOrDouble': [r"It's your turn to roll or double\.",
                          r"It's your turn\. Please roll or double"],
    'FIBS_AcceptRejectDouble': [N + r" doubles\. Type 'accept' or 'reject'\."],
    'FIBS_Doubles': [N + r" doubles\.(?! Type 'accept' or 'reject'\.)"],
    'FIBS_PleaseMove': [r'Please move [1-4] pieces?\.'],
    'FIBS_PlayerMoves': [N + r' moves'],
    'FIBS_BearingOff': [r'Bearing off:'],
    'FIBS_YouReject': [r'You reject\. The game continues\.'],
    'FIBS_YouStopWatching': [N + r" (?:logs out|drops connection)\.+ You're not watching anymore\.",
                             r'You stop watching ',
                             r'\*\* You stop watching'],
    'FIBS_OpponentLogsOut': [N + r' (?:logs out|drops connection)\.+ The game was saved\.'],
    'FIBS_OnlyPossibleMove': [r'The only possible move is'],
    'FIBS_FirstRoll': [N + r' rolled [1-6].+rolled [1-6]'],
    'FIBS_MakesFirstMove': [N + r' makes the first move\.'],
    'FIBS_YouDouble': [r'You double\. Please wait for '],
    'FIBS_PlayerWantsToResign': [N + r" wants to resign\. You will win [0-9]+ points?\. Type 'accept' or 'reject'\.",
                                 N + r' wants to resign\.$'],
    'FIBS_WatchResign': [N + r" wants to resign\. (?!You will win [0-9]+ points?\. Type 'accept' or 'reject'\.)"],
    'FIBS_YouResign': [r'You want to resign\.'],
    'FIBS_ResumeMatchAck5': [r'You are now playing with ' + N + r'\. Your running match was loaded\.'],
    'FIBS_JoinNextGame': [r"Type 'join' if you want to play the next game, type 'leave' if you don't\."],
    'FIBS_NewMatchRequest': [N + r' wants to play a [0-9]+ point match with you\.'],
    'FIBS_WARNINGSavedMatch': [r"WARNING: Don't accept if you want to continue",
                               r"\*\* WARNING: Don't accept if you want to continue"],
    'FIBS_ResignRefused': [N + r' rejects\. The game continues\.'],
    'FIBS_MatchLength': [r'match length:'],
    'FIBS_TypeJoin': [r"Type 'join " + N + r"' to accept\."],
    'FIBS_YouAreWatching': [r"You're now watching "],
    'FIBS_PlayerStartsWatching': [N + r' starts watching ' + N + r'\.',
                                  N + r' is watching you\.'],
    'FIBS_PlayerStopsWatching': [N + r' stops watching ' + N + r'\.'],
    'FIBS_PlayerIsWatching': [N + r' is watching (?!you\.)'],
    'FIBS_ResignWins': [N + r' gives up\. ' + N + r' wins [0-9]+ points?\.'],
    'FIBS_ResignYouWin': [N + r' gives up\. You win [0-9]+ points?\.'],
    'FIBS_YouAcceptAndWin': [r'You accept and win'],
    'FIBS_AcceptWins': [N + r' accepts and wins [0-9]+ point'],
    'FIBS_PlayersStartingMatch': [N + r' and ' + N + r' start a [0-9]+ point match'],
    'FIBS_StartingNewGame': [r'Starting a new game with '],
    'FIBS_YouGiveUp': [r'You give up\. '],
    'FIBS_YouWinMatch': [r'You win the [0-9]+ point match'],
    'FIBS_PlayerWinsMatch': [N + r' wins the [0-9]+ point match'],
    'FIBS_ResumingUnlimitedMatch': [N + r' and ' + N + r' are resuming their unlimited match\.'],
    'FIBS_ResumingLimitedMatch': [N + r' and ' + N + r' are resuming their [0-9]+-point match\.'],
    'FIBS_MatchResult': [N + r' wins a [0-9]+ point match against '],
    'FIBS_BAD_AcceptDouble': [N + r' accepts? the double\. The cube shows [0-9]+\..+'],
    'FIBS_YouAcceptDouble': [r'You accept the double\. The cube shows(?! [0-9]+\..)'],
    'FIBS_PlayerAcceptsDouble': [N + r' accepts the double\. The cube shows (?![0-9]+\..)',
                                 N + r' accepts the double\.(?! The cube shows )', r'accepts the double\.'],
    'FIBS_ResumeMatchRequest': [N + r' wants to resume a saved match with you\.'],
    'FIBS_ResumeMatchAck0': [N + r' has joined you\. Your running match was loaded'],
    'FIBS_YouWinGame': [r'You win the game and get'],
    'FIBS_UnlimitedInvite': [N + r' wants to play an unlimted match with you\.'],
    'FIBS_PlayerWinsGame': [N + r' wins the game and gets [0-9]+ points?. Sorry.',
                            N + r' wins the game and gets [0-9]+ points?.'],
    'FIBS_WatchGameWins': [N + r' wins the game and gets(?! [0-9]+ points?.)'],
    'FIBS_PlayersStartingUnlimitedMatch': [N + r' and ' + N + r' start an unlimited match\.'],
    'FIBS_ReportLimitedMatch': [N + r' +- +' + N + r' (?!\(unlimited).+ point match'],
    'FIBS_ReportUnlimitedMatch': [N + r' +- +' + N + r' \(unlimited'],
    'FIBS_ShowMovesStart': [N + r' is X - ' + N + r' is O'],
    'FIBS_ShowMovesRoll': [r'[XO]: \([1-6]'],
    'FIBS_ShowMovesWins': [r'[XO]: wins'],
    'FIBS_ShowMovesDoubles': [r'[XO]: doubles'],
    'FIBS_ShowMovesAccepts': [r'[XO]: accepts'],
    'FIBS_ShowMovesRejects': [r'[XO]: rejects'],
    'FIBS_ShowMovesOther': [r'[XO]:(?! \([1-6]| wins| doubles| accepts| rejects)'],
    'FIBS_ScoreUpdate': [r'score in [0-9]+ point match:'],
    'FIBS_MatchStart': [r'Score is [0-9]+-[0-9]+ in a [0-9]+ point match\.'],
    'FIBS_Settings': [r'Settings of variables:'],
    'FIBS_Turn': [r'turn:'],
    'FIBS_Boardstyle': [r'boardstyle:'],
    'FIBS_Linelength': [r'linelength:'],
    'FIBS_Pagelength': [r'pagelength:'],
    'FIBS_Redoubles': [r'redoubles:'],
    'FIBS_Sortwho': [r'sortwho:'],
    'FIBS_Timezone': [r'timezone:'],
    'FIBS_CantMove': [N + r" can't move"],
    'FIBS_ListOfGames': [r'List of games:'],
    'FIBS_PlayerInfoStart': [r'Information about'],
    'FIBS_EmailAddress': [r'  Email address:'],
    'FIBS_NoEmail': [r'  No email address\.'],
    'FIBS_WavesAgain': [N + r' waves goodbye again\.',
                        r'You wave goodbye again and log out\.'],
    'FIBS_Waves': [N + r' waves goodbye(?! again\.)',
                   r'You wave goodbye\.'],
    'FIBS_NoSavedGames': [r'no saved games\.'],
    'FIBS_TypeBack': [r"You're away\. Please type 'back'"],
    'FIBS_SavedMatch': [r'  ' + N + r' +[0-9]+ +[0-9]+ +- +'],
    'FIBS_SavedMatchPlaying': [r' \*' + N + r' +[0-9]+ +[0-9]+ +- +'],
    'FIBS_PlayerIsWaitingForYou': [N + r' is waiting for you to log in\.'],
    'FIBS_IsAway': [N + r' is away: '],
    'FIBS_AllowpipTrue': [r'allowpip +YES',
                          r"\*\* You allow the use the server's 'pip' command\."],
    'FIBS_AllowpipFalse': [r'allowpip +NO',
                           r"\*\* You don't allow the use of the server's 'pip' command\."],
    'FIBS_AutoboardTrue': [r'autoboard +YES',
                           r'\*\* The board will be refreshed'],
    'FIBS_AutoboardFalse': [r'autoboard +NO',
                            r"\*\* The board won't be refreshed"],
    'FIBS_AutodoubleTrue': [r'autodouble +YES',
                            r'\*\* You agree that doublets'],
    'FIBS_AutodoubleFalse': [r'autodouble +NO',
                             r"\*\* You don't agree that doublets"],
    'FIBS_AutomoveTrue': [r'automove +YES',
                          r'\*\* Forced moves will'],
    'FIBS_AutomoveFalse': [r'automove +NO',
                           r"\*\* Forced moves won't"],
    'FIBS_BellTrue': [r'bell +YES',
                      r'\*\* Your terminal will ring'],
    'FIBS_BellFalse': [r'bell +NO',
                       r"\*\* Your terminal won't ring"],
    'FIBS_CrawfordTrue': [r'crawford +YES',
                          r'\*\* You insist on playing with the Crawford rule\.'],
    'FIBS_CrawfordFalse': [r'crawford +NO',
                           r'\*\* You would like to play without using the Crawford rule\.'],
    'FIBS_DoubleTrue': [r'double +YES',
                        r'\*\* You will be asked if you want to double\.'],
    'FIBS_DoubleFalse': [r'double +NO',
                         r"\*\* You won't be asked if you want to double\."],
    'FIBS_MoreboardsTrue': [r'moreboards +YES',
                            r'\*\* Will send rawboards after rolling\.'],
    'FIBS_MoreboardsFalse': [r'moreboards +NO',
                             r"\*\* Won't send rawboards after rolling\."],
    'FIBS_MovesTrue': [r'moves +YES',
                       r'\*\* You want a list of moves after this game\.'],
    'FIBS_MovesFalse': [r'moves +NO',
                        r"\*\* You won't see a list of moves after this game\."],
    'FIBS_GreedyTrue': [r'greedy +YES',
                        r'\*\* Will use automatic greedy bearoffs\.'],
    'FIBS_GreedyFalse': [r'greedy +NO',
                         r"\*\* Won't use automatic greedy bearoffs\."],
    'FIBS_NotifyTrue': [r'notify +YES',
                        r"\*\* You'll be notified"],
    'FIBS_NotifyFalse': [r'notify +NO',
                         r"\*\* You won't be notified"],
    'FIBS_RatingsTrue': [r'ratings +YES',
                         r"\*\* You'll see how the rating changes are calculated\."],
    'FIBS_RatingsFalse': [r'ratings +NO',
                          r"\*\* You won't see how the rating changes are calculated\."],
    'FIBS_ReadyTrue': [r'ready +YES',
                       r"\*\* You're now ready to invite or join someone\."],
    'FIBS_ReadyFalse': [r'ready +NO',
                        r"\*\* You're now refusing to play with someone\."],
    'FIBS_ReportTrue': [r'report +YES',
                        r'\*\* You will be informed'],
    'FIBS_ReportFalse': [r'report +NO',
                         r"\*\* You won't be informed"],
    'FIBS_SilentTrue': [r'silent +YES',
                        r"\*\* You won't hear what other players shout\."],
    'FIBS_SilentFalse': [r'silent +NO',
                         r'\*\* You will hear what other players shout\.'],
    'FIBS_TelnetTrue': [r'telnet +YES',
                        r'\*\* You use telnet'],
    'FIBS_TelnetFalse': [r'telnet +NO',
                         r'\*\* You use a client program'],
    'FIBS_WrapTrue': [r'wrap +YES',
                      r'\*\* Your terminal knows how to wrap'],
    'FIBS_WrapFalse': [r'wrap +NO',
                       r'\*\* The server will wrap'],
    'FIBS_Junk': [r'Closed old connection with user',
                  r'\*\* You tell ',
                  r'\*\* Please wait for ' + N + r' to join too\.'],
    'FIBS_Done': [r'Done\.'],
    'FIBS_YourTurnToMove': [r"It's your turn to move\."],
    'FIBS_SavedMatchesHeader': [r'  opponent          matchlength   score \(your points first\)'],
    'FIBS_MessagesForYou': [r'There are messages for you:'],
    'FIBS_RedoublesSetTo': [r"Value of 'redoubles' set to [0-9]+\."],
    'FIBS_DoublingCubeNow': [r'The number on the doubling cube is now [0-9]+'],
    'FIBS_FailedLogin': [r'> [0-9]+'],
    'FIBS_Average': [r'Time \(UTC\)  average min max',
                     r'[0-9][0-9]:[0-9][0-9]-'],
    'FIBS_DiceTest': [r'[nST]: ',
                      r'[1-6]-1 [0-9]',
                      r'[1-6]: [0-9]'],
    'FIBS_LastLogout': [r'  Last logout:'],
    'FIBS_RatingCalcStart': [r'rating calculation:'],
    'FIBS_RatingCalcInfo': [r'Probability that underdog wins:',
                            r'P=[0-9.]+ is 1-Pu if underdog wins',
                            r'Experience: ',
                            r'K=max\(1',
                            r'rating difference',
                            r'change for',
                            r'match length  '],
    'FIBS_WatchingHeader': [r'Watching players:'],
    'FIBS_SettingsHeader': [r'The current settings are:'],
    'FIBS_AwayListHeader': [r'The following users are away:'],
    'FIBS_RatingExperience': [r'  Rating: +[0-9]+\.'],
    'FIBS_NotLoggedIn': [r'  Not logged in right now\.'],
    'FIBS_IsPlayingWith': [r' *' + N + r' is playing with'],
    'FIBS_SavedScoreHeader': [r'opponent +matchlength'],
    'FIBS_StillLoggedIn': [r'  Still logged in\.'],
    'FIBS_NoOneIsAway': [r'None of the users is away\.'],
    'FIBS_PlayerListHeader': [r'No  S  username        rating  exp login    idle  from'],
    'FIBS_RatingsHeader': [r' rank name            rating    Experience'],
    'FIBS_ClearScreen': [r'.\[;H.\[2J'],
    'FIBS_Timeout': [r'Connection timed out\.'],
    'FIBS_Goodbye': [r'           +Goodbye\.'],
    'FIBS_LastLogin': [r'  Last login:'],
    'FIBS_NoInfo': [r'No information found on user'],
    'CLIP_WHO_INFO': [r'5 [^ ]+ - - [01]',
                      r'5 [^ ]+ [^ ]+ - [01]',
                      r'5 [^ ]+ - [^ ]+ [01]'],
    'FIBS_Stat': [r'[0-9]+ bytes',
                  r'[0-9]+ accounts',
                  r'[0-9]+ ratings saved. reset log',
                  r'[0-9]+ registered users.',
                  r'[0-9]+\([0-9]+\) saved games check by cron'],
    'CLIP_WHO_END': [r'6$'],
    'CLIP_SHOUTS': [r'13 ' + N + r' '],
    'CLIP_SAYS': [r'12 ' + N + r' '],
    'CLIP_WHISPERS': [r'14 ' + N + r' '],
    'CLIP_KIBITZES': [r'15 ' + N + r' '],
    'CLIP_YOU_SAY': [r'16 ' + N + r' '],
    'CLIP_YOU_SHOUT': [r'17 '],
    'CLIP_YOU_WHISPER': [r'18 '],
    'CLIP_YOU_KIBITZ': [r'19 '],
    'CLIP_LOGIN': [r'7 ' + N + r' '],
    'CLIP_LOGOUT': [r'8 ' + N + r' '],
    'CLIP_MESSAGE': [r'9 ' + N + r' [0-9]+ '],
    'CLIP_MESSAGE_DELIVERED': [r'10 ' + N + r'$'],
    'CLIP_MESSAGE_SAVED': [r'11 ' + N + r'$'],
    'FIBS_Username': [r'\*\* User'],
    'FIBS_YouGag': [r'\*\* You gag'],
    'FIBS_YouUngag': [r'\*\* You ungag'],
    'FIBS_YouBlind': [r'\*\* You blind'],
    'FIBS_YouUnblind': [r'\*\* You unblind'],
    'FIBS_UseToggleReady': [r"\*\* Use 'toggle ready' first"],
    'FIBS_NewMatchAck9': [r'\*\* You are now playing an unlimited match with '],
    'FIBS_NewMatchAck10': [r'\*\* You are now playing a [0-9]+ point match with '],
    'FIBS_NewMatchAck2': [r'\*\* Player ' + N + r' has joined you for a'],
    'FIBS_YouTerminated': [r'\*\* You terminated the game'],
    'FIBS_OpponentLeftGame': [r'\*\* Player ' + N + r' has left the game. The game was saved\.'],
    'FIBS_PlayerLeftGame': [N + r' has left the game\.'],
    'FIBS_YouInvited': [r'\*\* You invited'],
    'FIBS_YourLastLogin': [r'\*\* Last login:'],
    'FIBS_NoOne': [r'\*\* There is no one called'],
    'FIBS_PlayerRefusingGames': [r'\*\* ' + N + r' is refusing games\.'],
    'FIBS_NotWatching': [r"\*\* You're not watching\."],
    'FIBS_NotWatchingPlaying': [r"\*\* You're not watching or playing\."],
    'FIBS_NotPlaying': [r"\*\* You're not playing\."],
    'FIBS_NoUser': [r'\*\* There is no one called '],
    'FIBS_AlreadyPlaying': [r'\*\* ' + N + r' is already playing with'],
    'FIBS_DidntInvite': [r'\*\* ' + N + r" didn't invite you."],
    'FIBS_BadMove': [r"\*\* You can't remove this piece"],
    'FIBS_CantMoveFirstMove': [r"\*\* You can't move "],
    'FIBS_CantShout': [r"\*\* Please type 'toggle silent' again before you shout\."],
    'FIBS_MustMove': [r'\*\* You must give [1-4] moves'],
    'FIBS_MustComeIn': [r'\*\* You have to remove pieces from the bar in your first move\.'],
    'FIBS_UsersHeardYou': [r'\*\* [0-9]+ users? heard you\.'],
    'FIBS_SavedMatchReady': [r'\*\*' + N + r' +[0-9]+ +[0-9]+ +- +[0-9]+'],
    'FIBS_NotYourTurnToRoll': [r"\*\* It's not your turn to roll the dice\."],
    'FIBS_NotYourTurnToMove': [r"\*\* It's not your turn to move\."],
    'FIBS_UnknownCommand': [r'\*\* Unknown command:'],
    'FIBS_CantWatch': [r"\*\* You can't watch another game while you're playing\."],
    'FIBS_CantInviteSelf': [r"\*\* You can't invite yourself\."],
    'FIBS_DontKnowUser': [r"\*\* Don't know user"],
    'FIBS_MessageUsage': [r'\*\* usage: message <user> <text>'],
    'FIBS_PlayerNotPlaying': [r'\*\* ' + N + r' is not playing\.'],
    'FIBS_CantTalk': [r"\*\* You can't talk if you won't listen\."],
    'FIBS_WontListen': [r'\*\* ' + N + r" won't listen to you\."],
    'FIBS_Why': [r'\** ?Why would you want to do that'],
    'FIBS_Ratings': [r'\* *[0-9]+ +' + N + r' +[0-9]+\.[0-9]+ +[0-9]+'],
    'FIBS_NoSavedMatch': [r"\*\* There's no saved match with "],
    'FIBS_CantGagYourself': [r"\*\* You talk too much, don't you\?"],
    'FIBS_CantBlindYourself': [r"\*\* You can't read this message now, can you\?"],
}

DEFAULT = {'LOGIN': 'FIBS_PreLogin', 'MOTD': 'FIBS_MOTD', 'RUN': 'FIBS_Unknown'}
EMPTY = {'LOGIN': 'FIBS_PreLogin', 'MOTD': 'FIBS_MOTD', 'RUN': 'FIBS_Empty'}
TABLES = {'LOGIN': LOGIN, 'MOTD': MOTD, 'RUN': RUN}
# state, cookie -> next state
NEXT = {('LOGIN', 'CLIP_MOTD_BEGIN'): 'MOTD', ('MOTD', 'CLIP_MOTD_END'): 'RUN', ('RUN', 'FIBS_Goodbye'): 'LOGIN'}
